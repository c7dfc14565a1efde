// Small vocabularies of subtrees, by name.
const P = (v) => ({ k: 'P', v }), T = (v) => ({ k: 'T', v }), N = () => ({ k: 'N' }), F = (...c) => ({ k: 'F', c }), C = (c) => ({ k: 'C', c: [c] }), D = (c) => ({ k: 'D', c: [c] }), L = (...c) => ({ k: 'L', c }), E = (c) => ({ k: 'E', c: [c] }), H = (a, b) => ({ k: 'H', c: [a, b] });
export const VOCAB = {
  P: (v) => P(v(0)), S: (v) => ({ k: 'S', v: v(0) }), T: (v) => T(v(0)), N: () => N(), W: (v) => ({ k: 'W', v: v(0) }),
  F0: () => F(), F1: (v) => F(P(v(0))), F2: (v) => F(P(v(0)), P(v(1))), F2t: (v) => F(T(v(0)), T(v(1))), F3: (v) => F(P(v(0)), P(v(1)), P(v(2))),
  C: (v) => C(P(v(0))), CS: (v) => C({ k: 'S', v: v(0) }), CC: (v) => C(C(P(v(0)))), C0: () => C(N()), CF: (v) => C(F(P(v(0)), T(v(1)))), D: (v) => D(P(v(0))), CD: (v) => C(D(P(v(0)))),
  L0: () => L(), L1: (v) => L(P(v(0))), L2: (v) => L(P(v(0)), T(v(1))), LF: (v) => L(F(P(v(0))), F()),
  E: (v) => E(P(v(0))), E0: () => E(N()), EF: (v) => E(F(P(v(0)), P(v(1)))), EC: (v) => E(C(T(v(0)))), H: (v) => H(P(v(0)), T(v(1))), H0: (v) => H(N(), P(v(0))),
  FF0: () => F(F(), F()), FF1: (v) => F(F(), F(P(v(0)))), FF2: (v) => F(F(P(v(0))), F(P(v(1)))), FF3: (v) => F(F(P(v(0)), P(v(1))), N()), FC: (v) => F(C(N()), P(v(0))),
};
export const WRAP = { root: (d) => d, hole: (d) => H(d, P('end')), inner: (d) => F(P('a'), d, P('z')), comp: (d) => C(d), list: (d) => L(d, P('z')), deep: (d) => E(F(P('a'), C(F(d)), F(), P('z'))) };
