"""Run Importer::imports on an OpenQASM text in the interpreter and compare what comes out with the reference reader."""
import re
from absint import *
import absint as A
import opsem, prog, qmod, qref, sem
from ops import World

DOC = ('qasm3::CompilerError',)


class Import:
    def __init__(self, F):
        self.F = F
        self.W = World(F)
        ip = self.ip = Interp(F, hooks=qmod.hooks(F), max_iter=4000, max_depth=120)
        ip.max_rec, ip.max_secs, ip.max_steps = 14, 60, 10 ** 8
        self.f = F.fn('qasm3::Importer::imports')

    def run(self, text):
        """('throw', class) or ('circuit', record with resolved pointers); AnalysisError if neither is certain"""
        rs = self.ip.run(self.f, [Sx(text)])
        if not rs:
            return ('throw', 'no end')
        got = None
        for st, oc, _, _ in rs:
            null = [c for c in st.pc if '(* nullptr)' in show(c[0] if isinstance(c, tuple) and c and isinstance(c[0], tuple) else c)]
            if null:
                g = ('throw', 'null dereference')
            elif oc[0] == 'throw':
                g = ('throw', exc(oc[1]))
            elif oc[0] == 'return':
                g = ('circuit', self.W.deep(oc[1], st))
            else:
                raise AnalysisError("ends with " + oc[0])
            if got is not None and got != g:
                raise AnalysisError("several outcomes: " + '; '.join(show(c[0])[:100] if isinstance(c, tuple) else str(c)[:100] for c in st.pc[:4]))
            got = g
        return got


def exc(v):
    if isinstance(v, tuple):
        if v[0] == 'rec':
            return v[1]
        if v[0] == 'throwv':
            return exc(v[1])
        m = re.search(r"ctor:([\w:]+)", str(v))
        return m.group(1) if m else show(v)[:200]
    return str(v)


def ops_of(qc):
    return [o if o[0] == 'rec' else o[1] for o in rget(qc, 'ops')[1]]


def registers(qc, which):
    out = {}
    for k, v in rget(qc, which)[1]:
        out[k[1]] = (num(rget(v, 'startIndex')), num(rget(v, 'size')))
        if rget(v, 'name')[1] != k[1]:
            out[k[1]] = 'named ' + rget(v, 'name')[1]
    return out


def judge(text, got):
    """(kind, message): kind is 'same', 'rejected' (both), 'refused' (only the importer), 'accepted' (only the importer),
    'other exception' or 'wrong'"""
    try:
        P = qref.Program(text)
    except qref.Bad as e:
        P = e
    if got[0] == 'throw':
        if got[1].split(' ')[0] not in DOC:
            return 'other exception', "throws " + got[1]
        return ('rejected', '') if isinstance(P, Exception) else ('refused', "rejects it")
    if isinstance(P, Exception):
        return 'accepted', "accepts it (%s)" % P
    qc = got[1]
    try:
        q, c = registers(qc, 'quantumRegisters'), registers(qc, 'classicalRegisters')
        if q != P.q or c != P.c:
            return 'wrong', "makes registers %s, %s" % (q, c)
        if num(rget(qc, 'nqubits')) + num(rget(qc, 'nancillae')) != P.nq or num(rget(qc, 'nclassics')) != P.nc:
            return 'wrong', "counts %s qubits, %s bits" % (show(rget(qc, 'nqubits')), show(rget(qc, 'nclassics')))
        for sd in (1, 2):
            psi = prog.state(P.nq, sd)
            a = prog.joint(P.run(psi), list(range(P.nq)), P.nq)
            env = {}
            gp = num(rget(qc, 'globalPhase'))
            b = prog.joint(prog.run(ops_of(qc), P.nq, P.nc, psi, env), list(range(P.nq)), P.nq)
            if gp is None or not prog.same(a, b):
                return 'wrong', "builds something else: " + brief(ops_of(qc))
    except sem.Undefined as e:
        return 'wrong', "builds something that is not a circuit: %s" % e
    return 'same', ''


def brief(ops):
    def one(o):
        if o[0] == 'own':
            o = o[1]
        if o[1] == 'qc::CompoundOperation':
            return '[' + brief(rget(o, 'ops')[1]) + ']'
        if o[1] == 'qc::ClassicControlledOperation':
            r, b = rget(o, 'controlRegister'), rget(o, 'controlBit')
            return 'if(%s %s %s) %s' % (rget(r[1], 'name')[1] if r[0] == 'opt' else show(b), rget(o, 'comparisonKind')[2], show(rget(o, 'expectedValue')), one(rget(o, 'op')))
        try:
            return '%s(%s) %s%s' % (opsem.tname(o), ','.join(show(p) for p in rget(o, 'parameter')[1]), ''.join('%s%d ' % ('+' if p else '-', q) for q, p in opsem.controls(rget(o, 'controls'))), opsem.qubits(rget(o, 'targets')))
        except Exception:
            return show(o)[:80]
    return '; '.join(one(o) for o in ops)
