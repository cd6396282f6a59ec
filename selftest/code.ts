export type P = { name: string; v: number; tags: string[]; on?: boolean };
export const a1 = (ps: P[]) => ps.map((p) => p.name + "=" + p.v).join(",");
export function a2(ps: P[]) { const out: string[] = []; for (let i = 0; i < ps.length; i++) { const p = ps[i]!; out.push(`${p.name}=${p.v}`); } return out.join(","); }
export function a3(ps: P[]) { const out: string[] = []; for (const p of ps) out.push(p.name + "=" + p.v); return out.join(","); }
export function a4(ps: P[]) { const out: string[] = []; ps.forEach((p) => { out.push([p.name, p.v].join("=")); }); return out.join(","); }
export function a5(ps: P[]) { return ps.reduce<string[]>((acc, p) => [...acc, p.name + "=" + p.v], []).join(","); }
export function a6(ps: P[]) { let i = 0; const out: string[] = []; while (i < ps.length) { out.push(ps[i]!.name + "=" + ps[i]!.v); i += 1; } return out.join(","); }
export function a7(ps: P[]) { const out: string[] = []; for (const [, p] of ps.entries()) { const { name, v } = p; out.push(name.concat("=", String(v))); } return out.join(","); }
export function a8(ps: P[]) { const out = new Array<string>(); for (const i in ps) { out.push(ps[i]!.name + "=" + ps[i]!.v); } return out.join(","); }
export function a9(ps: P[]) { let s = ""; for (let i = 0; i < ps.length; i++) { if (i > 0) s += ","; s += ps[i]!.name + "=" + ps[i]!.v; } return s; }
export function a10(ps: P[]) { let s = ""; let first = true; for (const p of ps) { if (!first) s += ","; first = false; s += p.name + "=" + p.v; } return s; }
export const f1 = (ps: P[]) => ps.filter((p) => p.on).map((p) => p.name);
export function f2(ps: P[]) { const r: string[] = []; for (const p of ps) { if (!p.on) continue; r.push(p.name); } return r; }
export function f3(ps: P[]) { return ps.flatMap((p) => (p.on ? [p.name] : [])); }
export function f4(ps: P[]) { return ps.reduce((acc, p) => { if (p.on) acc.push(p.name); return acc; }, [] as string[]); }
export function f5(ps: P[]) { const r: string[] = []; for (let i = 0; i < ps.length; i++) if (ps[i]!.on) r[r.length] = ps[i]!.name; return r; }
export const g1 = (ps: P[], n: string) => ps.find((p) => p.name === n)?.v;
export function g2(ps: P[], n: string) { for (const p of ps) if (p.name === n) return p.v; return undefined; }
export function g3(ps: P[], n: string) { for (let i = 0; i < ps.length; i++) { if (ps[i]!.name === n) return ps[i]!.v; } return undefined; }
export function g4(ps: P[], n: string) { const i = ps.findIndex((p) => p.name === n); return i < 0 ? undefined : ps[i]!.v; }
export function g5(ps: P[], n: string) { return ps.filter((p) => p.name === n)[0]?.v; }
export function g6(ps: P[], n: string) { let r: number | undefined; for (const p of ps) { if (p.name === n) { r = p.v; break; } } return r; }
export const h1 = (d: Record<string, number>) => Object.fromEntries(Object.entries(d).map(([k, v]) => [k + "x", v + 1]));
export function h2(d: Record<string, number>) { const o: Record<string, number> = {}; for (const k of Object.keys(d)) o[k + "x"] = d[k]! + 1; return o; }
export function h3(d: Record<string, number>) { const o: Record<string, number> = {}; Object.entries(d).forEach(([k, v]) => { o[`${k}x`] = v + 1; }); return o; }
export function h4(d: Record<string, number>) { return Object.keys(d).reduce<Record<string, number>>((o, k) => ({ ...o, [k + "x"]: d[k]! + 1 }), {}); }
export function h5(d: Record<string, number>) { const o: Record<string, number> = {}; for (const k in d) { if (!Object.prototype.hasOwnProperty.call(d, k)) continue; o[k + "x"] = d[k]! + 1; } return o; }
export function h6(d: Record<string, number>) { const m = new Map<string, number>(); for (const [k, v] of Object.entries(d)) m.set(k + "x", v + 1); return Object.fromEntries(m); }
export const s1 = (ps: P[]) => ps.some((p) => p.v > 10);
export function s2(ps: P[]) { for (const p of ps) { if (p.v > 10) return true; } return false; }
export function s3(ps: P[]) { let f = false; for (const p of ps) { if (p.v > 10) f = true; } return f; }
export function s4(ps: P[]) { return !ps.every((p) => p.v <= 10); }
export function s5(ps: P[]) { return ps.filter((p) => p.v > 10).length > 0; }
export function s6(ps: P[]) { return ps.findIndex((p) => p.v > 10) !== -1; }
export function s7(ps: P[]) { let f = false; ps.forEach((p) => { f = f || p.v > 10; }); return f; }
export const t1 = (ps: P[]) => ps.reduce((a, p) => a + p.v, 0);
export function t2(ps: P[]) { let t = 0; for (const p of ps) t += p.v; return t; }
export function t3(ps: P[]) { let t = 0; for (let i = 0; i < ps.length; i++) t = t + ps[i]!.v; return t; }
export const u1 = (ps: P[]) => ps.filter((p) => p.v > 3).length;
export function u2(ps: P[]) { let t = 0; for (const p of ps) if (p.v > 3) t++; return t; }
export const x1 = (ps: P[]) => ps.flatMap((p) => p.tags.map((t) => p.name + t));
export function x2(ps: P[]) { const o: string[] = []; for (const p of ps) for (const t of p.tags) o.push(p.name + t); return o; }
export function x3(ps: P[]) { const o: string[] = []; for (let i = 0; i < ps.length; i++) { const p = ps[i]!; for (let j = 0; j < p.tags.length; j++) { o.push(`${p.name}${p.tags[j]}`); } } return o; }
export function x4(ps: P[]) { return ps.map((p) => p.tags.map((t) => p.name + t)).flat(); }
