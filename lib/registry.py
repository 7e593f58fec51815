CORE = ["fbpcf/scheduler", "fbpcf/engine"]

MPC = CORE + ["fbpcf/mpc_std_lib/util"]
DRIVERS = {
    "engine": dict(src="engine.cpp", dirs=CORE),
    "exchange": dict(src="exchange.cpp", dirs=CORE),
    "front_bit": dict(src="front_bit.cpp", dirs=CORE),
    **{"front_int%d" % i: dict(src="front_int.cpp", dirs=CORE, flags=["-DWIDTHS=" + ws])
       for i, ws in enumerate(["1,33", "2,64", "3,31", "4,63", "7,32", "8,16"])},
    "sched": dict(src="sched.cpp", dirs=CORE),
    "comm": dict(src="comm.cpp", dirs=["fbpcf/engine/communication", "fbpcf/util", "fbpcf/exception"]),
    "tuple": dict(src="tuple.cpp", dirs=CORE),
    "keys": dict(src="keys.cpp", dirs=CORE),
    "container": dict(src="container.cpp", dirs=MPC),
    **{"container%d" % i: dict(src="container.cpp", dirs=MPC, flags=["-DPART=%d" % i]) for i in (1, 2, 3)},
    **{"permute%d" % i: dict(src="permute.cpp", dirs=MPC + ["fbpcf/mpc_std_lib/permuter"], flags=["-DPART=%d" % i]) for i in range(4)},
    **{"oram%d" % i: dict(src="oram.cpp", dirs=MPC + ["fbpcf/mpc_std_lib/oram"], flags=["-DPART=%d" % i]) for i in range(3)},
    "fileio": dict(src="fileio.cpp", dirs=["fbpcf/io", "fbpcf/aws", "fbpcf/gcp", "fbpcf/exception"]),
    "encoder": dict(src="encoder.cpp", dirs=["fbpcf/mpc_std_lib/oram/encoder", "fbpcf/io", "fbpcf/aws", "fbpcf/gcp", "fbpcf/exception"]),
    **{"udp%d" % i: dict(src="udp.cpp", dirs=MPC + ["fbpcf/mpc_std_lib/unified_data_process/data_processor", "fbpcf/mpc_std_lib/shuffler", "fbpcf/mpc_std_lib/permuter", "fbpcf/primitive/mac", "fbpcf/io", "fbpcf/aws", "fbpcf/gcp", "fbpcf/exception"], flags=["-DPART=%d" % i]) for i in range(3)},
    "rows": dict(src="rows.cpp", dirs=MPC),
    "aes": dict(src="aes.cpp", dirs=MPC + ["fbpcf/primitive/mac"]),
    "walr": dict(src="walr.cpp", dirs=MPC + ["fbpcf/mpc_std_lib/walr_multiplication"]),
    "games": dict(src="games.cpp", dirs=CORE + ["example/edit_distance", "fbpcf/io", "fbpcf/aws", "fbpcf/gcp", "fbpcf/exception"]),
    "collect": dict(src="collect.cpp", dirs=["fbpcf/util"]),
    "prg": dict(src="prg.cpp", dirs=["fbpcf/engine/util"]),
}



def mc(module, *mistakes, workers=4, **kw):
    """a model, its larger instance for the thorough run, and each deliberate mistake, which must be refuted"""
    return [dict(module=module, cfg=module, cfg_thorough=module + "Big", workers=workers, **kw)] + \
        [dict(module=module, cfg=module + "_" + x, refute=True) for x in mistakes]


PROPS = {
    "S01": dict(level="model_checking", mc=[dict(module="LazyCircuit", cfg="MCLazyCircuit3", workers=2)],
                runs=[dict(driver="sched", mode="bool", spec="SchedulerTrace", shards=5),
                      dict(driver="sched", mode="prodbool", spec="SchedulerTrace", shards=4)]),
    "S02": dict(level="model_checking", mc=[dict(module="LazyCircuit", cfg="ArithCircuit", cfg_thorough="ArithCircuitBig", workers=4)],
                runs=[dict(driver="sched", mode="arith", spec="SchedulerTrace", shards=5),
                      dict(driver="sched", mode="prodint", spec="SchedulerTrace", shards=2)]),
    "S03": dict(level="model_checking",
                mc=[dict(module="WireStore", cfg="WireStore", cfg_thorough="WireStoreBig", workers=4),
                    dict(module="WireStore", cfg="WireStoreBad", refute=True)],
                runs=[dict(driver="sched", mode="life", spec="SchedulerTrace", shards=5)]),
    "S04": dict(level="model_checking",
                mc=[dict(module="LazyCircuit", cfg="MCLazyCircuit", cfg_thorough="MCLazyCircuitBig", workers=4, xmx="8g")],
                runs=[dict(driver="sched", mode="lazy", spec="LazyTrace", shards=5)]),
    "S05": dict(level="model_checking", mc=mc("GateCount", "perGate", "perBatch", "rebatch", "twice"),
                runs=[dict(driver="sched", mode="gates", spec="SchedulerTrace", shards=5)]),
    "E01": dict(level="model_checking",
                mc=[dict(module="LazyCircuit", cfg="MCLazyCircuit3", workers=2)],
                runs=[dict(driver="engine", mode="mask", spec="EngineTrace", shards=4),
                      dict(driver="engine", mode="real", spec="EngineTrace", shards=2)]),
    "E02": dict(level="model_checking",
                mc=[dict(module="Beaver", cfg="Beaver3", cfg_thorough="Beaver4", workers=4),
                    dict(module="Beaver", cfg="Beaver", workers=4, thorough_only=True),
                    dict(module="Beaver", cfg="BeaverBig", workers=4, thorough_only=True),
                    dict(module="Beaver", cfg="BeaverReuse", refute=True),
                    dict(module="Beaver", cfg="BeaverAllAdd", refute=True),
                    dict(module="Beaver", cfg="BeaverOrder", refute=True)],
                runs=[dict(driver="engine", mode="mask", spec="EngineTrace", shards=5)]),
    "E03": dict(level="model_checking",
                mc=[dict(module="MCExchange", cfg="MCExchange", cfg_thorough="MCExchangeBig", workers=4)],
                runs=[dict(driver="exchange", mode="", spec="ExchangeTrace", shards=4)]),
    "E04": dict(level="model_checking", mc=mc("Traffic", "noInts", "oneIsAll", "swapped", "twice", "lost", "refused"),
                runs=[dict(driver="sched", mode="traf", spec="SchedulerTrace", shards=2),
                      dict(driver="sched", mode="prodtraf", spec="SchedulerTrace", shards=9)]),
    "F01": dict(level="model_checking", mc=[dict(module="Handles", cfg="Handles")],
                runs=[dict(driver="front_bit", mode="", spec="FrontBitTrace", shards=5)]),
    "F02": dict(level="model_checking", mc=[dict(module="RippleArith", cfg="RippleArith", cfg_thorough="RippleArithBig")],
                runs=[dict(driver="front_int%d" % i, mode="", spec="FrontIntTrace", shards=1) for i in range(6)]),
    "C01": dict(level="model_checking", mc=[dict(module="Channel", cfg="Channel", cfg_thorough="ChannelBig")],
                runs=[dict(driver="comm", mode="mem", spec="ChannelTrace", shards=3),
                      dict(driver="comm", mode="sock", spec="ChannelTrace", shards=2),
                      dict(driver="comm", mode="tls", spec="ChannelTrace", shards=2)]),
    "C02": dict(level="model_checking", mc=[dict(module="Channel", cfg="Channel", cfg_thorough="ChannelBig")],
                runs=[dict(driver="comm", mode="broken", spec="ChannelTrace", shards=4)]),
    "C03": dict(level="model_checking", mc=[dict(module="Pairing", cfg="Pairing", cfg_thorough="PairingBig")],
                runs=[dict(driver="comm", mode="pair", spec="ChannelTrace", shards=4)]),
    "C04": dict(level="model_checking", mc=[dict(module="TlsPeer", cfg="TlsPeer")] + [dict(module="TlsPeer", cfg="TlsPeerNo" + x, refute=True) for x in ("Version", "Roots", "Verify", "Host", "Result")],
                runs=[dict(driver="comm", mode="auth", spec="ChannelTrace", shards=3)]),
    "T01": dict(level="model_checking", mc=[dict(module="AsyncBuffer", cfg="AsyncBuffer", cfg_thorough="AsyncBufferBig")],
                runs=[dict(driver="prg", mode="buf", spec="StreamTrace", shards=4)]),
    "T05": dict(level="model_checking", mc=mc("PrgStream", "dropRest", "behind") + [dict(module="PrgStream", cfg="PrgStreamInPlace"), dict(module="PrgStream", cfg="PrgStreamInPlace_repeat", refute=True)],
                runs=[dict(driver="prg", mode="prg", spec="PrgTrace", shards=4)]),
    "T03": dict(level="model_checking", mc=mc("Puncture", "swapped", "both", "tail") + mc("CotExtend", "evenDelta", "oddRow", "keepsGiven"),
                runs=[dict(driver="tuple", mode="ot", spec="OtTrace", shards=5)]),
    "T04": dict(level="model_checking", mc=[dict(module="MCKeyFlow", cfg="MCKeyFlow", cfg_thorough="MCKeyFlowBig")],
                runs=[dict(driver="keys", mode="", spec="KeyTrace", shards=4)]),
    "T02": dict(level="model_checking", mc=[dict(module="TupleSchedule", cfg="TupleSchedule", cfg_thorough="TupleScheduleBig")],
                runs=[dict(driver="tuple", mode="tup", spec="TupleTrace", shards=5)]),
    "M01": dict(level="model_checking", mc=[dict(module="Waksman", cfg="Waksman", cfg_thorough="WaksmanBig")],
                runs=[dict(driver="permute0", mode="", spec="PermuteTrace", shards=3),
                      dict(driver="permute1", mode="", spec="PermuteTrace", shards=3)]),
    "M02": dict(level="model_checking", mc=mc("Compact", "oneOrder", "plain", "apart"),
                runs=[dict(driver="permute2", mode="", spec="PermuteTrace", shards=3),
                      dict(driver="permute3", mode="", spec="PermuteTrace", shards=3)]),
    "M03": dict(level="model_checking", mc=[dict(module="PointArray", cfg="PointArray", cfg_thorough="PointArrayBig")],
                runs=[dict(driver="oram%d" % i, mode="", spec="OramTrace", shards=3) for i in range(3)]),
    "M04": dict(level="model_checking", mc=mc("Encoder", "late", "perBatch"),
                runs=[dict(driver="encoder", mode="", spec="EncoderTrace", shards=4)]),
    "U01": dict(level="model_checking", mc=mc("Collector", "drop", "replace", "frozen", "last"),
                runs=[dict(driver="collect", mode="", spec="CollectTrace", shards=4)]),
    "G01": dict(level="model_checking", mc=mc("EditTable", "unitEdge", "noKeep", "noDelete", "stale") + mc("BigSum", "narrow", "orEqual", "signed"),
                runs=[dict(driver="games", mode="", spec="GamesTrace", shards=6)]),
    "I01": dict(level="model_checking", mc=[dict(module="BufReader", cfg="BufReader", cfg_thorough="BufReaderBig", workers=4)],
                runs=[dict(driver="fileio", mode="buf", spec="FileTrace", shards=5)]),
    "I02": dict(level="model_checking", mc=[dict(module="Multipart", cfg="Multipart", cfg_thorough="MultipartBig")],
                runs=[dict(driver="fileio", mode="cloud", spec="CloudTrace", shards=5)]),
    "I03": dict(level="model_checking", mc=mc("Address", "firstDot", "firstMark", "noKey", "lastSlash"),
                runs=[dict(driver="fileio", mode="mgr", spec="StoreTrace", shards=5)]),
    "M05": dict(level="model_checking", mc=mc("UdpSession", "overlap", "sameKey", "noClose", "noClear"),
                runs=[dict(driver="udp0", mode="", spec="UdpTrace", shards=5),
                      dict(driver="udp1", mode="", spec="UdpTrace", shards=3)]),
    "M06": dict(level="model_checking", mc=mc("Compact", "oneOrder", "plain", "apart"),
                runs=[dict(driver="udp2", mode="", spec="UdpTrace", shards=4)]),
    "M07": dict(level="model_checking", mc=mc("RowPack", "ninth", "noFlush", "breaks", "early"),
                runs=[dict(driver="rows", mode="", spec="RowTrace", shards=4)]),
    "M08": dict(level="model_checking", mc=mc("CotProduct", "bareKey", "oneKey", "ownLabel", "lost"),
                runs=[dict(driver="walr", mode="", spec="WalrTrace", shards=4)]),
    "M09": dict(level="model_checking", mc=[],
                runs=[dict(driver="aes", mode="plain", spec="AesTrace", shards=4),
                      dict(driver="aes", mode="mpc", spec="AesTrace", shards=4)]),
    "M10": dict(level="model_checking", mc=mc("Rebatch", "order", "offset", "short", "wrap"),
                runs=[dict(driver="container", mode="plain", spec="ContainerTrace", shards=3),
                      *[dict(driver="container%d" % i, mode="mpc", spec="ContainerTrace", shards=2) for i in (1, 2, 3)],
                      dict(driver="container", mode="perm", spec="ContainerTrace", shards=1)]),
}

NOT_APPLICABLE = {
    "X01": "a statement about probability distributions and computational hardness; a state-machine specification "
           "can decide which values are sent and how they are masked (E02 does), not that masks look random",
}
