import type { P } from "./code.ts";
export function a2w(ps: P[]) { const out: string[] = []; for (let i = 0; i < ps.length - 1; i++) out.push(`${ps[i]!.name}=${ps[i]!.v}`); return out.join(","); }
export function a3w(ps: P[]) { const out: string[] = []; for (const p of ps) out.unshift(p.name + "=" + p.v); return out.join(","); }
export function a9w(ps: P[]) { let s = ""; for (let i = 0; i < ps.length; i++) { if (s !== "") s += ","; s += ps[i]!.name; if (ps[i]!.v !== 0) s += "=" + ps[i]!.v; } return s; }
export function a7w(ps: P[]) { return ps.map((p) => p.name + "=" + Math.abs(p.v)).join(","); }
export function f2w(ps: P[]) { const r: string[] = []; for (const p of ps) { if (!p.on) break; r.push(p.name); } return r; }
export function f3w(ps: P[]) { return ps.filter((p) => p.on !== false).map((p) => p.name); }
export function f5w(ps: P[]) { return [...new Set(ps.filter((p) => p.on).map((p) => p.name))]; }
export function g2w(ps: P[], n: string) { let r: number | undefined; for (const p of ps) if (p.name === n) r = p.v; return r; }
export function g4w(ps: P[], n: string) { const i = ps.findIndex((p) => p.name === n); return i <= 0 ? undefined : ps[i]!.v; }
export function g5w(ps: P[], n: string) { return ps.find((p) => p.name.startsWith(n))?.v; }
export function s2w(ps: P[]) { for (const p of ps) { return p.v > 10; } return false; }
export function s3w(ps: P[]) { let f = false; for (const p of ps) { f = p.v > 10; } return f; }
export function s4w(ps: P[]) { return ps.every((p) => p.v > 10); }
export function s6w(ps: P[]) { return ps.findIndex((p) => p.v > 10) > 0; }
export function t2w(ps: P[]) { let t = 0; for (const p of ps) { if (p.v < 0) continue; t += p.v; } return t; }
export function t3w(ps: P[]) { let t = 0; for (let i = 1; i < ps.length; i++) t = t + ps[i]!.v; return t; }
export function u2w(ps: P[]) { return ps.filter((p) => p.v >= 3).length; }
export function x2w(ps: P[]) { const o: string[] = []; for (const p of ps) for (const t of p.tags) o.push(t + p.name); return o; }
export function x4w(ps: P[]) { return ps.map((p) => p.tags.map((t) => p.name + t).slice(0, 2)).flat(); }
export function h2w(d: Record<string, number>) { const o: Record<string, number> = {}; for (const k of Object.keys(d)) o[k] = d[k]! + 1; return o; }
export function h3w(d: Record<string, number>) { const o: Record<string, number> = {}; for (const [k, v] of Object.entries(d)) if (v) o[`${k}x`] = v + 1; return o; }
