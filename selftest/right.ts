import { spec, str, int, num, bool, opt, arr, dict, obj, same } from "vf"; import * as c from "./code.ts"; const P = obj({name: str(), v: int(), tags: arr(str()), on: opt(bool())});
export const a2 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a2(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a3 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a3(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a4 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a4(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a5 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a5(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a6 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a6(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a7 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a7(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a8 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a8(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a9 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a9(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a10 = spec({ inputs: { ps: arr(P) }, call: (i) => c.a10(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const f2 = spec({ inputs: { ps: arr(P) }, call: (i) => c.f2(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const f3 = spec({ inputs: { ps: arr(P) }, call: (i) => c.f3(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const f4 = spec({ inputs: { ps: arr(P) }, call: (i) => c.f4(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const f5 = spec({ inputs: { ps: arr(P) }, call: (i) => c.f5(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const s2 = spec({ inputs: { ps: arr(P) }, call: (i) => c.s2(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s3 = spec({ inputs: { ps: arr(P) }, call: (i) => c.s3(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s4 = spec({ inputs: { ps: arr(P) }, call: (i) => c.s4(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s5 = spec({ inputs: { ps: arr(P) }, call: (i) => c.s5(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s6 = spec({ inputs: { ps: arr(P) }, call: (i) => c.s6(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s7 = spec({ inputs: { ps: arr(P) }, call: (i) => c.s7(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const t2 = spec({ inputs: { ps: arr(P) }, call: (i) => c.t2(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.t1(o.ps)) } });
export const t3 = spec({ inputs: { ps: arr(P) }, call: (i) => c.t3(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.t1(o.ps)) } });
export const u2 = spec({ inputs: { ps: arr(P) }, call: (i) => c.u2(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.u1(o.ps)) } });
export const x2 = spec({ inputs: { ps: arr(P) }, call: (i) => c.x2(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.x1(o.ps)) } });
export const x3 = spec({ inputs: { ps: arr(P) }, call: (i) => c.x3(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.x1(o.ps)) } });
export const x4 = spec({ inputs: { ps: arr(P) }, call: (i) => c.x4(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.x1(o.ps)) } });
export const g2 = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => c.g2(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const g3 = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => c.g3(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const g4 = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => c.g4(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const g5 = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => c.g5(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const g6 = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => c.g6(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const h2 = spec({ inputs: { d: dict(int()) }, call: (i) => c.h2(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
export const h3 = spec({ inputs: { d: dict(int()) }, call: (i) => c.h3(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
export const h4 = spec({ inputs: { d: dict(int()) }, call: (i) => c.h4(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
export const h5 = spec({ inputs: { d: dict(int()) }, call: (i) => c.h5(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
export const h6 = spec({ inputs: { d: dict(int()) }, call: (i) => c.h6(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
