// Values of TL types, enumerated from the schema alone.
// deno-lint-ignore-file no-explicit-any
import type { Schema } from "./tl.ts";

export interface Param {
  name: string;
  type: string;
  flag: { field: string; bit: number } | null;
}
const seq = (n: number, k = 1) => new Uint8Array(n).map((_, i) => (i * 7 + k) & 255);
const big = (hex: string, bits: number) => BigInt.asIntN(bits, BigInt("0x" + hex));

export const PRIMITIVES: Record<string, any[]> = {
  int: [1, 0, -1, 2147483647, -2147483648, 0x12345678, 255, 256, 65536, -256],
  long: [1n, 0n, -1n, (1n << 63n) - 1n, -(1n << 63n), 0x0102030405060708n, 1n << 32n, -(1n << 32n), 0xFFFFFFFFn],
  int128: [1n, 0n, -1n, (1n << 127n) - 1n, -(1n << 127n), big("0102030405060708090a0b0c0d0e0f10", 128), big("f102030405060708090a0b0c0d0e0f10", 128), 1n << 64n, -(1n << 64n), (1n << 64n) - 1n],
  int256: [1n, 0n, -1n, (1n << 255n) - 1n, -(1n << 255n), big("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20", 256), big("f102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20", 256), 1n << 64n, 1n << 128n, 1n << 192n, -(1n << 128n), -(1n << 192n)],
  double: [1, 0, -0, -1.5, 1e300, -5e-324, NaN, Infinity, -Infinity, 0.1],
  bytes: [seq(3), seq(0), seq(1), seq(2), seq(4), seq(5), seq(252), seq(253), seq(254), seq(255), seq(256), seq(257), seq(300)],
  string: ["abc", "", "a", "ab", "abcd", "\0", "é", "日本語", "👍🏽", "\uFEFFabc", "a\uFEFF", "x".repeat(252), "x".repeat(253), "x".repeat(254), "é".repeat(127), "\u{10FFFF}", "\r\n"],
  Bool: [true, false],
  true: [true],
  "#": [],
};

export class Values {
  defs: Schema["definitions"];
  byType = new Map<string, string[]>();
  #size = new Map<string, number>();
  #typeCache = new Map<string, any>();
  constructor(schema: Schema, public query: () => any = () => null) {
    this.defs = schema.definitions;
    for (const [name, [, , type]] of Object.entries(this.defs)) {
      if (this.isFunction(name)) continue;
      const l = this.byType.get(type) ?? [];
      l.push(name);
      this.byType.set(type, l);
    }
    // the size of the smallest value of each constructor, by iteration to a fixpoint
    for (let changed = true; changed;) {
      changed = false;
      for (const name of Object.keys(this.defs)) {
        let n = 1;
        for (const p of this.params(name)) if (!p.flag) n += this.#least(p.type);
        if (n < (this.#size.get(name) ?? Infinity)) this.#size.set(name, n), changed = true;
      }
    }
  }
  functions = new Set<string>();
  isFunction(name: string) {
    return this.functions.has(name);
  }
  params(name: string): Param[] {
    return this.defs[name][1].filter(([, t]) => t !== "#").map(([n, t]) => {
      const m = /^([a-z0-9_]+)\.(\d+)\?(.*)$/.exec(t);
      return m ? { name: n, type: m[3], flag: { field: m[1], bit: Number(m[2]) } } : { name: n, type: t, flag: null };
    });
  }
  /** The constructor a type stands for if it is bare. */
  bare(type: string): string | null {
    if (type.startsWith("%")) return this.byType.get(type.slice(1))?.[0] ?? null;
    return this.defs[type] && this.defs[type][2] !== type ? type : null;
  }
  vector(type: string): string | null {
    return /^[Vv]ector<(.*)>$/.exec(type)?.[1] ?? null;
  }
  #least(type: string): number {
    if (PRIMITIVES[type] || this.vector(type) || type === "!X") return 1;
    const bare = this.bare(type);
    if (bare) return this.#size.get(bare) ?? Infinity;
    return Math.min(...(this.byType.get(type) ?? []).map((c) => this.#size.get(c) ?? Infinity));
  }
  /** The smallest value of a type. */
  least(type: string): any {
    if (this.#typeCache.has(type)) return this.#typeCache.get(type);
    let v: any;
    if (PRIMITIVES[type]) v = PRIMITIVES[type][0];
    else if (this.vector(type)) v = Object.freeze([]);
    else if (type === "!X" || type === "X") v = this.query();
    else {
      const l = this.bare(type) ? [this.bare(type)!] : this.byType.get(type) ?? [];
      const best = l.reduce((a: string | null, c) => a === null || this.#size.get(c)! < this.#size.get(a)! ? c : a, null);
      if (best === null || !Number.isFinite(this.#size.get(best))) throw new Error(`no value of type ${type}`);
      v = this.object(best);
    }
    this.#typeCache.set(type, v);
    return v;
  }
  /** The smallest object of a constructor. */
  object(name: string, over: Record<string, any> = {}): any {
    const o: any = { _: name };
    for (const p of this.params(name)) if (p.name in over ? over[p.name] !== undefined : !p.flag) o[p.name] = p.name in over ? over[p.name] : this.least(p.type);
    return Object.freeze(o);
  }
  /** All values of a type to be tried in one place. */
  all(type: string): any[] {
    if (PRIMITIVES[type]) return PRIMITIVES[type];
    const item = this.vector(type);
    if (item !== null) {
      const vs = this.all(item);
      const few = vs.slice(0, 40);
      return [[], [this.least(item)], [this.least(item), this.least(item), this.least(item)], few, [...few].reverse()].map((v) => Object.freeze(v));
    }
    if (type === "!X" || type === "X") return [this.query()];
    if (this.bare(type)) return [this.object(this.bare(type)!)];
    return (this.byType.get(type) ?? []).map((c) => this.object(c));
  }
}
