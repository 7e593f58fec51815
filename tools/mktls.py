#!/usr/bin/env python3
"""Writes harness/tls_scheduler.h: a boolean scheduler that forwards every call to the calling thread's own one,
so that the parties of a protocol can run the same template instantiation in one process."""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open("/repo/fbpcf/scheduler/IScheduler.h").read()
src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
src = re.sub(r"//[^\n]*", "", src)
out = ["""// Generated by tools/mktls.py: forwards every scheduler call to the calling thread's own scheduler,
// so that all parties can run the same template instantiation (SchedulerKeeper<0>) in one process.
#pragma once
#include "fbpcf/scheduler/IScheduler.h"

namespace vh {
using fbpcf::scheduler::IScheduler;

class TlsScheduler final : public IScheduler {
 public:
  static IScheduler*& mine() {
    thread_local IScheduler* s = nullptr;
    return s;
  }
"""]
for m in re.finditer(r"virtual\s+([^;]*?)\s*(\w+)\(([^;]*?)\)\s*(const)?\s*=\s*0;", src, flags=re.S):
    ret, name, args, const = m.groups()
    ret = " ".join(ret.split()); args = " ".join(args.split())
    names = [a.split()[-1].lstrip("&") for a in re.split(r",(?![^<]*>)", args)] if args else []
    out.append("  %s %s(%s) %soverride { return mine()->%s(%s); }" % (ret, name, args, "const " if const else "", name, ", ".join(names)))
out.append("};\n} // namespace vh")
open(os.path.join(V, "harness", "tls_scheduler.h"), "w").write("\n".join(out) + "\n")
