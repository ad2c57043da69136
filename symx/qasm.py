"""An interpreter for the part of OpenQASM 3 needed to give meaning to exported programs.

Gates follow stdgates.inc of the OpenQASM 3 specification."""

from __future__ import annotations

import re

import numpy as np

from . import sem
from .engine import ZERO
from .text import Expr, ParseError, turns

FIXED = {
    "id": sem.GATE["I"], "x": sem.GATE["X"], "y": sem.GATE["Y"], "z": sem.GATE["Z"], "h": sem.GATE["H"], "s": sem.GATE["S"],
    "sdg": sem.GATE["S"].conj(), "t": np.diag([1, np.exp(1j * np.pi / 4)]), "tdg": np.diag([1, np.exp(-1j * np.pi / 4)]),
    "sx": np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2,
    "cx": sem.GATE["CNOT"], "CX": sem.GATE["CNOT"], "cz": sem.GATE["CZ"], "swap": sem.GATE["SWAP"], "ccx": sem.GATE["CCX"],
    "cy": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1j], [0, 0, 1j, 0]]),
}
ROTS = {"rx": (1,), "ry": (3,), "rz": (2,)}


class QasmError(Exception):
    pass


class Program:
    """Runs a program statement by statement on a reference state.

    ``outcome(bit name)`` gives the outcome of the measurement assigned to a bit."""

    def __init__(self, e, text, outcome, inputs=None):
        self.e, self.outcome = e, outcome
        self.bits, self.qubits = {}, {}
        self.inputs = inputs  # names of qubits that hold arbitrary input (circuit export)
        self.measured = []
        self.st = sem.new_state(e, list(inputs or []))
        self.version = False
        self.std = False
        self.run(self.strip(text))

    @staticmethod
    def strip(text):
        text = re.sub(r"//[^\n]*", "", text)
        return re.sub(r"/\*.*?\*/", "", text, flags=re.S)

    def run(self, text):
        i = 0
        while True:
            while i < len(text) and text[i].isspace():
                i += 1
            if i >= len(text):
                return
            m = re.compile(r"if\s*\(").match(text, i)
            if m:
                j, d = m.end(), 1
                while d:
                    if j >= len(text):
                        raise QasmError("unbalanced (")
                    d += {"(": 1, ")": -1}.get(text[j], 0)
                    j += 1
                cond = self.cond(text[m.end():j - 1])
                while j < len(text) and text[j].isspace():
                    j += 1
                if j < len(text) and text[j] == "{":
                    k = text.find("}", j)
                    if k < 0:
                        raise QasmError("unbalanced {")
                    body, i = text[j + 1:k], k + 1
                else:
                    k = text.find(";", j)
                    if k < 0:
                        raise QasmError("missing ;")
                    body, i = text[j:k + 1], k + 1
                if re.match(r"\s*else", text[i:]):
                    raise QasmError("else")
                self.block(body, cond)
                continue
            k = text.find(";", i)
            if k < 0:
                raise QasmError(f"missing ; after {text[i:i + 30]!r}")
            self.stmt(text[i:k].strip())
            i = k + 1

    def block(self, body, cond):
        parts = body.split(";")
        if parts[-1].strip():
            raise QasmError("missing ; in block")
        for p in parts[:-1]:
            p = p.strip()
            if p:
                self.gate(p, cond)

    def cond(self, s):
        """Anf of a boolean expression of bits."""
        toks = re.findall(r"[A-Za-z_]\w*(?:\[\d+\])?|\d+|==|!=|[()^!]", s)
        if "".join(toks) != re.sub(r"\s", "", s):
            raise QasmError(f"condition {s!r}")
        pos = [0]

        def atom():
            t = toks[pos[0]] if pos[0] < len(toks) else None
            pos[0] += 1
            if t == "!":
                return atom().neg()
            if t == "(":
                v = xor()
                if pos[0] >= len(toks) or toks[pos[0]] != ")":
                    raise QasmError("condition")
                pos[0] += 1
                return v
            if t in ("0", "false"):
                return ZERO
            if t in ("1", "true"):
                return ZERO.neg()
            if t in self.bits:
                if self.bits[t] is None:
                    raise QasmError(f"bit {t} is read before it is assigned")
                return self.bits[t]
            raise QasmError(f"unknown bit {t}")

        def eq():
            v = atom()
            while pos[0] < len(toks) and toks[pos[0]] in ("==", "!="):
                op = toks[pos[0]]
                pos[0] += 1
                w = atom()
                v = v ^ w if op == "!=" else (v ^ w).neg()
            return v

        def xor():
            v = eq()
            while pos[0] < len(toks) and toks[pos[0]] == "^":
                pos[0] += 1
                v = v ^ eq()
            return v

        v = xor()
        if pos[0] != len(toks):
            raise QasmError(f"condition {s!r}")
        return v

    def q(self, name):
        name = name.strip()
        if name not in self.qubits:
            raise QasmError(f"unknown qubit {name!r}")
        return self.qubits[name]

    def declare(self, kind, name, n):
        for k in ([name] if n is None else [f"{name}[{i}]" for i in range(n)]):
            if k in self.bits or k in self.qubits:
                raise QasmError(f"{k} declared twice")
            if kind == "bit":
                self.bits[k] = None
            else:
                self.qubits[k] = k
                if self.inputs is None:
                    self.zero(k)
                elif k not in self.inputs:
                    raise QasmError(f"unexpected qubit {k}")

    def zero(self, k):
        from graphix.states import BasicStates

        self.st.prep(k, sem.state_vec(BasicStates.ZERO) if self.e.mode == "concrete" else sem.state_bloch(BasicStates.ZERO))

    def stmt(self, s):
        if re.fullmatch(r"OPENQASM 3(\.\d+)?", s):
            if self.version or self.qubits:
                raise QasmError("version statement must come first")
            self.version = True
            return
        if not self.version:
            raise QasmError("no version statement")
        if s == 'include "stdgates.inc"':
            self.std = True
            return
        m = re.fullmatch(r"(qubit|bit)(?:\[(\d+)\])?\s+([A-Za-z_]\w*)(?:\s*=\s*(.*))?", s)
        if m:
            self.declare(m[1], m[3], None if m[2] is None else int(m[2]))
            if m[4] is not None:
                self.assign(m[3], m[4])
            return
        m = re.fullmatch(r"([A-Za-z_]\w*(?:\[\d+\])?)\s*=\s*(.*)", s)
        if m:
            self.assign(m[1], m[2])
            return
        m = re.fullmatch(r"reset\s+(\S+)", s)
        if m:
            raise QasmError("reset")
        self.gate(s, None)

    def assign(self, b, rhs):
        if b not in self.bits:
            raise QasmError(f"unknown bit {b}")
        m = re.fullmatch(r"measure\s+(\S+)", rhs)
        if m:
            if self.bits[b] is not None:
                raise QasmError(f"bit {b} is assigned twice")
            o = self.outcome(b)
            self.bits[b] = o
            sem.meas_axis(self.e, self.st, self.q(m[1]), "Z", o)
            self.measured.append((m[1], b))
            return
        self.bits[b] = self.cond(rhs)

    def gate(self, s, cond):
        m = re.fullmatch(r"([A-Za-z_]\w*)\s*(?:\((.*)\))?\s+(.*)", s)
        if not m:
            raise QasmError(f"statement {s!r}")
        if not self.std:
            raise QasmError("standard gates are not included")
        name, args, ops = m[1], m[2], [self.q(x) for x in m[3].split(",")]
        if len(set(ops)) != len(ops):
            raise QasmError("repeated operand")
        try:
            a = [turns(Expr(x).parse()) for x in args.split(",")] if args is not None else []
        except ParseError as ex:
            raise QasmError(f"argument {args!r}: {ex}") from None
        e, st = self.e, self.st
        dense = e.mode == "concrete"
        if cond is not None:
            if a or name not in ("x", "z", "y", "id"):
                raise QasmError(f"conditional gate {name}")
            if dense:
                if cond.const():
                    st.opn(ops, FIXED[name])
                elif cond.const() is None:
                    raise QasmError("condition")
            else:
                if name in ("x", "y"):
                    st.flip(ops[0], 1, cond)
                if name in ("z", "y"):
                    st.flip(ops[0], 2, cond)
            return
        if name in FIXED:
            n = FIXED[name].shape[0].bit_length() - 1
            if a or len(ops) != n:
                raise QasmError(f"operands of {name}")
            if dense:
                st.opn(ops, FIXED[name])
            else:
                st.unitary(ops, sem.num_entries(FIXED[name]))
            return

        def rot(qs, p, x):
            if dense:
                st.opn(qs, sem.rot_matrix(p, x))
            else:
                st.unitary(qs, sem.rot_entries(p, x))

        if name in ROTS or name in ("p", "phase"):
            if len(a) != 1 or len(ops) != 1:
                raise QasmError(f"operands of {name}")
            rot(ops, ROTS.get(name, (2,)), a[0])
        elif name in ("crx", "cry", "crz"):
            if len(a) != 1 or len(ops) != 2:
                raise QasmError(f"operands of {name}")
            p = ROTS[name[1:]]
            # controlled rotation = R(a/2) on the target, exp(+i a/4 Z.P)
            rot([ops[1]], p, a[0] / 2)
            rot(ops, (2, *p), -a[0] / 2)
        elif name == "rzz":
            raise QasmError("rzz is not a gate of stdgates.inc")
        else:
            raise QasmError(f"unknown gate {name}")
