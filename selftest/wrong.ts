import { spec, str, int, bool, opt, arr, dict, obj, same } from "vf"; import * as c from "./code.ts"; import * as w from "./broken.ts"; const P = obj({name: str(), v: int(), tags: arr(str()), on: opt(bool())});
export const a2w = spec({ inputs: { ps: arr(P) }, call: (i) => w.a2w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a3w = spec({ inputs: { ps: arr(P) }, call: (i) => w.a3w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a9w = spec({ inputs: { ps: arr(P) }, call: (i) => w.a9w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const a7w = spec({ inputs: { ps: arr(P) }, call: (i) => w.a7w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.a1(o.ps)) } });
export const f2w = spec({ inputs: { ps: arr(P) }, call: (i) => w.f2w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const f3w = spec({ inputs: { ps: arr(P) }, call: (i) => w.f3w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const f5w = spec({ inputs: { ps: arr(P) }, call: (i) => w.f5w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.f1(o.ps)) } });
export const g2w = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => w.g2w(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const g4w = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => w.g4w(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const g5w = spec({ inputs: { ps: arr(P), n: str() }, call: (i) => w.g5w(i.ps, i.n), ensures: { eq: (o, r) => r.ok && same(r.value, c.g1(o.ps, o.n)) } });
export const s2w = spec({ inputs: { ps: arr(P) }, call: (i) => w.s2w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s3w = spec({ inputs: { ps: arr(P) }, call: (i) => w.s3w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s4w = spec({ inputs: { ps: arr(P) }, call: (i) => w.s4w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const s6w = spec({ inputs: { ps: arr(P) }, call: (i) => w.s6w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.s1(o.ps)) } });
export const t2w = spec({ inputs: { ps: arr(P) }, call: (i) => w.t2w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.t1(o.ps)) } });
export const t3w = spec({ inputs: { ps: arr(P) }, call: (i) => w.t3w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.t1(o.ps)) } });
export const u2w = spec({ inputs: { ps: arr(P) }, call: (i) => w.u2w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.u1(o.ps)) } });
export const x2w = spec({ inputs: { ps: arr(P) }, call: (i) => w.x2w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.x1(o.ps)) } });
export const x4w = spec({ inputs: { ps: arr(P) }, call: (i) => w.x4w(i.ps), ensures: { eq: (o, r) => r.ok && same(r.value, c.x1(o.ps)) } });
export const h2w = spec({ inputs: { d: dict(int()) }, call: (i) => w.h2w(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
export const h3w = spec({ inputs: { d: dict(int()) }, call: (i) => w.h3w(i.d), ensures: { eq: (o, r) => r.ok && same(r.value, c.h1(o.d)) } });
