// Shape descriptors: shared by the symbolic engine (symbolic instances) and the concrete runner (generation, validation).
// A descriptor is a plain object {k: kind, ...}.
export const S = {
  str: (o = {}) => ({ k: "str", ...o }), // {re, min, max, pool}
  int: (min, max) => ({ k: "int", min, max }),
  num: (min, max) => ({ k: "num", min, max }), // finite number
  anynum: () => ({ k: "anynum" }),
  bool: () => ({ k: "bool" }),
  lit: (v) => ({ k: "lit", v }),
  oneOf: (...vs) => ({ k: "oneOf", vs }),
  opt: (s) => ({ k: "opt", s }), // undefined / absent, or s
  nullable: (s) => ({ k: "or", alts: [{ k: "lit", v: null }, s] }),
  or: (...alts) => ({ k: "or", alts }),
  arr: (s, o = {}) => ({ k: "arr", s, min: o.min ?? 0, max: o.max }),
  tuple: (...items) => ({ k: "tuple", items }),
  obj: (fields) => ({ k: "obj", fields }),
  dict: (s, o = {}) => ({ k: "dict", s, keys: o.keys, max: o.max }),
  date: (o = {}) => ({ k: "date", ...o }), // {invalid:true}
  err: (o = {}) => ({ k: "err", ...o }),
  fn: (ret, o = {}) => ({ k: "fn", ret, ...o }), // pure function of its arguments; o.throws: error shape it may throw
  json: (depth = 3) => ({ k: "json", depth }),
  opaque: (name) => ({ k: "opaque", name }),
  set: (s, o = {}) => ({ k: "set", s, ...o }),
  map: (s, o = {}) => ({ k: "map", s, ...o }),
};
export const jsonAlts = (depth) => [
  S.lit(null), S.bool(), S.num(), S.str(),
  ...(depth > 0 ? [S.arr(S.json(depth - 1)), S.dict(S.json(depth - 1))] : []),
];
