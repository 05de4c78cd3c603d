"""A phase logger that records which calls were made, generated from the interface."""
import os, re


def make(repo):
    def gen(out):
        t = open(os.path.join(repo, "fcp/client/phase_logger.h")).read()
        t = re.sub(r"//[^\n]*", "", t)
        l = ['#pragma once', '#include "fcp/client/phase_logger.h"', "namespace fcp { namespace client {", "struct VfPhaseLogger : PhaseLogger {", "  std::vector<std::string> calls; void Called(const char* n) { calls.push_back(n); } int Count(const std::string& n) const { int k = 0; for (auto& c : calls) k += c == n; return k; }"]
        for m in re.finditer(r"virtual\s+([\w:<>]+)\s+(\w+)\s*\(([^;]*?)\)\s*(const)?\s*=\s*0\s*;", t, re.S):
            ret, name, args, cst = m.group(1), m.group(2), " ".join(m.group(3).split()), m.group(4) or ""
            l.append('  %s %s(%s) %s override { Called("%s"); return %s; }' % (ret, name, args, cst, name, "" if ret == "void" else ret + "()"))
        l += ["};", "} }"]
        open(os.path.join(out, "phaselog.h"), "w").write("\n".join(l) + "\n")
    return gen
