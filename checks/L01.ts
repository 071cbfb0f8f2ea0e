// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { Bytes, Codec, Rd, same, show } from "../lib/tl.ts";
import { Values } from "../lib/tl_values.ts";
import * as Telegram from "/repo/tl/2_telegram.ts";
import * as Mtproto from "/repo/tl/2_mtproto.ts";
import * as Secret from "/repo/tl/2_secret_chats.ts";
import { TLWriter } from "/repo/tl/1_tl_writer.ts";
import { TLReader } from "/repo/tl/1_tl_reader.ts";
import { deserializeMessage, deserializeMsgContainer, writeMessage } from "/repo/tl/2_message.ts";

export interface Layer {
  name: string;
  api: any;
  codec: Codec;
  values: Values;
  names: string[];
  types: Set<string>;
}
export function layer(name: string, api: any): Layer {
  const codec = new Codec(api.schema);
  const types = new Set<string>(Object.values(api.schema.identifierToName) as string[]);
  const values = new Values(api.schema, () => values.object("help.getConfig"));
  for (const n of Object.keys(api.schema.definitions)) if (!types.has(n)) values.functions.add(n);
  const v2 = new Values(api.schema, () => v2.object("help.getConfig"));
  v2.functions = values.functions;
  v2.byType.clear();
  for (const n of types) v2.byType.set(api.schema.definitions[n][2], [...(v2.byType.get(api.schema.definitions[n][2]) ?? []), n]);
  return { name, api, codec, values: v2, names: Object.keys(api.schema.definitions).filter((n) => !["true", "boolTrue", "boolFalse", "vector"].includes(n)), types };
}
export const LAYERS: Record<string, () => Layer> = (() => {
  const made = new Map<string, Layer>();
  const lazy = (name: string, api: any) => () => made.get(name) ?? (made.set(name, layer(name, api)), made.get(name)!);
  return { telegram: lazy("telegram", Telegram), mtproto: lazy("mtproto", Mtproto), "secret chats": lazy("secret chats", Secret) };
})();
const hex = (b: Uint8Array) => b.length > 80 ? `${b.length} bytes` : [...b].map((x) => x.toString(16).padStart(2, "0")).join("");

/** The buffer in the middle of a larger one, which is overwritten afterwards. */
function embedded(b: Uint8Array) {
  const all = new Uint8Array(b.length + 24).fill(0xEE);
  all.set(b, 8);
  return { view: all.subarray(8, 8 + b.length), spoil: () => all.fill(0x99) };
}

function one(l: Layer, o: any, what: () => string, ctl: Ctl) {
  const expected = l.codec.encode(o);
  let got: Uint8Array;
  try {
    got = l.api.serializeObject(o);
  } catch (e) {
    fail(`${what()}: ${show(o)} is refused: ${(e as Error).message}`, "a valid object is not serialized");
  }
  check(got.length === expected.length && same(got, expected), () => `${what()}: ${show(o)} is serialized as ${hex(got)} rather than ${hex(expected)}`, "an object is serialized wrongly");
  ctl.count("objects");
  if (l.types.has(o._)) {
    const type = l.api.schema.definitions[o._][2];
    for (const as of ["X", type]) {
      const { view, spoil } = embedded(expected);
      let back: any;
      try {
        back = l.api.deserializeType(as, view);
      } catch (e) {
        fail(`${what()}: ${show(o)} cannot be read as ${as}: ${(e as Error).message}`, "a serialized object cannot be read");
      }
      spoil();
      check(same(back, o), () => `${what()}: ${show(o)} is read as ${as}: ${show(back)}`, "an object is read wrongly");
    }
  }
}

/** Every definition, with every value in every field, and every combination of optional fields. */
function objects(l: () => Layer, from: number, to: number): Scenario {
  return {
    name: `${from}-${to}`,
    run: (ctl) => {
      const L = l();
      const name = L.names[from + ctl.free(Math.min(to, L.names.length) - from, "definition")];
      const params = L.values.params(name);
      const what = (p: string) => () => `${name}: ${p}`;
      one(L, L.values.object(name), what("the smallest object"), ctl);
      // values
      const with_ = (p: any, v: any) => {
        const over: any = { [p.name]: v };
        // the fields sharing its bit are needed too
        if (p.flag) { for (const q of params) if (q !== p && q.flag && q.flag.field === p.flag.field && q.flag.bit === p.flag.bit) over[q.name] = L.values.least(q.type); }
        return over;
      };
      for (const p of params) for (const v of L.values.all(p.type)) one(L, L.values.object(name, with_(p, v)), what(p.name), ctl);
      // combinations of optional fields
      const bits = new Map<string, any[]>();
      for (const p of params) if (p.flag) bits.set(`${p.flag.field}.${p.flag.bit}`, [...(bits.get(`${p.flag.field}.${p.flag.bit}`) ?? []), p]);
      const groups = [...bits.values()];
      const subset = (chosen: any[][], drop?: any) => {
        const over: any = {};
        for (const g of chosen) for (const p of g) if (p !== drop) over[p.name] = L.values.least(p.type);
        return L.values.object(name, over);
      };
      if (groups.length <= 8) { for (let m = 1; m < 1 << groups.length; m++) one(L, subset(groups.filter((_, i) => m & 1 << i)), what("optional fields"), ctl); }
      else {
        one(L, subset(groups), what("all fields"), ctl);
        for (let i = 0; i < groups.length; i++) {
          one(L, subset(groups.filter((_, k) => k !== i)), what("all fields but one"), ctl);
          for (let k = 0; k < i; k++) one(L, subset([groups[i], groups[k]]), what("two optional fields"), ctl);
        }
      }
      // explicitly undefined fields are absent
      const o: any = { ...L.values.object(name) };
      for (const p of params) if (p.flag) o[p.name] = undefined;
      one(L, o, what("undefined fields"), ctl);
      // fields in another order
      const all = subset(groups);
      one(L, Object.fromEntries(Object.entries(all).reverse()), what("fields in another order"), ctl);

      // refusals
      const refused = (v: any, why: string) => {
        let r: Uint8Array | null = null;
        try {
          r = L.api.serializeObject(v);
        } catch {
          //
        }
        ctl.count("refusals");
        check(r === null, () => `${name}: ${why}: ${show(v)} is serialized as ${hex(r!)}`, "an invalid object is serialized");
      };
      for (const g of groups) if (g.length > 1 && g.filter((p) => p.type !== "true").length) for (const p of g) refused(subset([g], p), `${p.name} is missing although a field with the same flag is present`);
      for (const p of params) {
        if (!p.flag) {
          const less: any = { ...L.values.object(name) };
          delete less[p.name];
          refused(less, `${p.name} is missing`);
        }
        for (const v of WRONG[p.type] ?? (L.values.vector(p.type) !== null ? ["x", 5, {}, { length: 0 }, true] : L.values.bare(p.type) ? [] : [5, "x", true, {}, { _: "noSuchConstructor" }, { _: "toString" }, [], ...(p.type === "!X" ? [] : [otherThan(L, p.type)])])) refused(L.values.object(name, with_(p, v)), `${p.name} of a wrong type`);
        const item = L.values.vector(p.type);
        if (item && WRONG[item]) for (const v of WRONG[item]) refused(L.values.object(name, with_(p, [L.values.least(item), v])), `${p.name} with an item of a wrong type`);
        else if (item && !L.values.bare(item)) refused(L.values.object(name, with_(p, [L.values.least(item), otherThan(L, item)])), `${p.name} with an item of a wrong type`);
      }

      // names
      const type = L.api.schema.definitions[name][2];
      const least = L.values.object(name);
      check(L.api.is(name, least) && L.api.isOfEnum(type, least) && L.api.isValidObject(least) && L.api.as(name, least) === least && L.api.mustGetReturnType(name) === type, () => `${name} is not recognized`);
      check(!L.api.is("noSuchConstructor", least) && !L.api.isOfEnum("NoSuchType", least), () => `${name} is mistaken for another`);
      ctl.outcome(name);
    },
  };
}
const WRONG: Record<string, any[]> = {
  int: [2147483648, -2147483649, 4294967295, 0.5, NaN, Infinity, "1", 1n, true, {}, [1]],
  long: [1, 1n << 63n, -(1n << 63n) - 1n, 1n << 64n, "1", null, true],
  int128: [1, 1n << 127n, -(1n << 127n) - 1n, "1", null],
  int256: [1, 1n << 255n, -(1n << 255n) - 1n, "1", null],
  double: ["1", 1n, true, {}],
  bytes: ["abc", [1, 2], 5, null, true, new ArrayBuffer(4)],
  Bool: [1, 0, "true", null, {}],
  true: [1, "true", null],
  string: [],
};
function otherThan(l: Layer, type: string) {
  for (const [t, cs] of l.values.byType) if (t !== type && cs[0] !== type && t !== "Bool") return l.values.object(cs[0]);
}

/** Results of functions. */
function results(l: () => Layer): Scenario {
  return {
    name: "results",
    run: (ctl) => {
      const L = l();
      const types = [...new Set(L.names.map((n) => L.api.schema.definitions[n][2] as string))].filter((t) => t !== "X");
      const type = types[ctl.free(types.length, "type")];
      for (const v of L.values.all(type)) {
        const b = L.codec.encodeType(type, v);
        const { view, spoil } = embedded(b);
        let back: any;
        try {
          back = L.api.deserializeType(type, view, true);
        } catch (e) {
          fail(`a result of type ${type}: ${show(v)} cannot be read: ${(e as Error).message}`, "a result cannot be read");
        }
        spoil();
        ctl.count("results");
        check(same(back, v), () => `a result of type ${type}: ${show(v)} is read as ${show(back)}`, "a result is read wrongly");
      }
      ctl.outcome(type);
    },
  };
}

type Prim = [string, (w: any, b: Bytes) => void, (r: TLReader) => any, any];
function prims(): Prim[] {
  const p = (name: string, v: any, w: (w: any) => void, b: (b: Bytes) => void, r: (r: TLReader) => any): Prim => [name, (x, y) => (w(x), b(y)), r, v];
  const l: Prim[] = [];
  const bytes = (n: number) => new Uint8Array(n).map((_, i) => i * 3 + n);
  for (const v of [0, 1, -1, 0x7fffff, -0x800000, 0x123456]) l.push(p(`int24 ${v}`, v, (w) => w.writeInt24(v), (b) => b.big(BigInt(v), 3), (r) => r.readInt24()));
  for (const v of [0, 0xffffff, 0x800000]) l.push(p(`uint24 ${v}`, v, (w) => w.writeInt24(v, false), (b) => b.big(BigInt(v), 3), (r) => r.readInt24(false)));
  for (const v of [0, -1, 0x7fffffff, -0x80000000]) l.push(p(`int32 ${v}`, v, (w) => w.writeInt32(v), (b) => b.u32(v), (r) => r.readInt32()));
  for (const v of [0xffffffff, 0x80000000]) l.push(p(`uint32 ${v}`, v, (w) => w.writeInt32(v, false), (b) => b.u32(v), (r) => r.readInt32(false)));
  for (const [n, k] of [[64, "Int64"], [128, "Int128"], [256, "Int256"]] as const) {
    const top = 1n << BigInt(n - 1);
    for (const v of [0n, -1n, top - 1n, -top, (1n << BigInt(n - 2)) / 255n, -(1n << BigInt(n - 8)) - 77n]) l.push(p(`int${n} ${v}`, v, (w) => w[`write${k}`](v), (b) => b.big(v, n / 8), (r: any) => r[`read${k}`]()));
    for (const v of [2n * top - 1n, top, top + 255n]) l.push(p(`uint${n} ${v}`, v, (w) => w[`write${k}`](v, false), (b) => b.big(v, n / 8), (r: any) => r[`read${k}`](false)));
  }
  for (const v of [1.5, -0, NaN]) l.push(p(`double ${v}`, v, (w) => w.writeDouble(v), (b) => b.f64(v), (r) => r.readDouble()));
  for (const n of [0, 1, 2, 3, 4, 253, 254, 255, 256, 600]) l.push(p(`bytes of ${n}`, bytes(n), (w) => w.writeBytes(bytes(n)), (b) => b.bytes(bytes(n)), (r) => r.readBytes()));
  for (const v of ["", "abc", "é\u{1F600}", "\uFEFFx"]) l.push(p(`string ${v}`, v, (w) => w.writeString(v), (b) => b.str(v), (r) => r.readString()));
  for (const n of [0, 1, 5, 255, 256, 257, 512]) l.push(p(`raw ${n}`, bytes(n), (w) => w.write(bytes(n)), (b) => b.raw(bytes(n)), (r) => r.read(n)));
  return l;
}
/** Sequences of primitives, starting anywhere around the places where the writer grows. */
function sequences(depth: number): Scenario {
  return {
    name: `sequences of ${depth} primitives`,
    run: (ctl) => {
      const l = prims();
      const starts = [0, 1, 250, 251, 252, 253, 254, 255, 256, 257, 508, 512, 1021, 1024];
      const first = ctl.free(l.length, "first");
      const go = (seq: Prim[]) => {
        if (seq.length < depth) return l.forEach((p) => go([...seq, p]));
        for (const start of starts) {
          for (const peek of [false, true]) {
            const w = new TLWriter(), b = new Bytes();
            const head = new Uint8Array(start).fill(0xAB);
            w.write(head), b.raw(head);
            for (const [, write] of seq) {
              write(w, b);
              if (peek) check(w.length === b.length && w.buffer.length === b.length, () => `${seq.map((s) => s[0])} after ${start}: length ${w.length}`, "the writer's length is wrong");
            }
            const got = w.buffer, want = b.done();
            ctl.count("sequences");
            check(same(got, want), () => `${seq.map((s) => s[0])} after ${start} bytes: ${hex(got)} rather than ${hex(want)}`, "primitives are written wrongly");
            const { view, spoil } = embedded(want);
            const r = new TLReader(view);
            r.read(start);
            const vs = seq.map((s) => s[2](r));
            check(r.buffer.length === 0, "the reader does not end where it should");
            r.unread(want.length - start);
            const again = seq.map((s) => s[2](r));
            spoil();
            seq.forEach((s, i) => check(same(vs[i], s[3]) && same(again[i], s[3]), () => `${seq.map((s) => s[0])} after ${start} bytes: #${i} is read as ${show(vs[i])} and ${show(again[i])}`, "primitives are read wrongly"));
          }
        }
      };
      go([l[first]]);
      ctl.outcome(`${depth}:${first}`);
    },
  };
}
/** Byte strings of every length. */
const lengths: Scenario = {
  name: "lengths of byte strings",
  run: (ctl) => {
    const ranges: number[][] = [[...Array(1200).keys()], [65533, 65534, 65535, 65536, 65537, 65538], [(1 << 23) - 2, (1 << 23) - 1, 1 << 23, (1 << 23) + 1], [(1 << 24) - 4, (1 << 24) - 3, (1 << 24) - 2, (1 << 24) - 1]];
    for (const n of ranges[ctl.free(ranges.length, "range")]) {
      const v = new Uint8Array(n).fill(0x41);
      if (n) v[0] = 1, v[n - 1] = 2;
      for (const s of [v, null]) {
        const text = s ? null : "\x01" + "A".repeat(Math.max(0, n - 2)) + "\x02";
        if (!s && n < 2) continue;
        const want = new Bytes().u32(7).bytes(v).u32(9).done();
        const w = new TLWriter().writeInt32(7);
        s ? w.writeBytes(s) : w.writeString(text!);
        w.writeInt32(9);
        const got = w.buffer;
        check(got.length === want.length && got.every((x, i) => x === want[i]), () => `a byte string of ${n} bytes is written wrongly`, "a byte string is written wrongly");
        const r = new TLReader(want);
        r.readInt32();
        if (s) {
          const b = r.readBytes();
          check(b.length === n && b.every((x, i) => x === v[i]), () => `a byte string of ${n} bytes is read as ${b.length}`, "a byte string is read wrongly");
        } else check(r.readString() === text, () => `a string of ${n} bytes is read wrongly`, "a byte string is read wrongly");
        check(r.readInt32() === 9, () => `what follows a byte string of ${n} bytes is read wrongly`, "a byte string is read wrongly");
        ctl.count("lengths");
      }
      ctl.outcome(`${n}`);
    }
    let refused = false;
    try {
      new TLWriter().writeBytes(new Uint8Array(1 << 24));
    } catch {
      refused = true;
    }
    check(refused, "a byte string too long for its length field is written");
  },
};
/** Small schemas: flags of all bits in two fields. */
const flags: Scenario = {
  name: "flags",
  run: (ctl) => {
    const a = ctl.free(32, "bit"), kind = ctl.free(3, "kind");
    for (let b = 0; b < 32; b++) {
      for (const types of [["int", "string"], ["true", "long"], ["Vector<int>", "true"]]) {
        const one = kind === 0;
        const params: [string, string][] = one ? [["flags", "#"], ["a", `flags.${a}?${types[0]}`], ["m", "int"], ["b", `flags.${b}?${types[1]}`]] : kind === 1 ? [["flags", "#"], ["a", `flags.${a}?${types[0]}`], ["flags2", "#"], ["b", `flags2.${b}?${types[1]}`], ["m", "int"]] : [["m", "int"], ["flags", "#"], ["b", `flags.${b}?${types[1]}`], ["f", "#"], ["a", `f.${a}?${types[0]}`]];
        const schema: any = { definitions: { x: [0xFEDCBA98, params, "T"] }, identifierToName: { [0xFEDCBA98]: "x" } };
        const codec = new Codec(schema);
        const va: any = { int: -5, true: true, "Vector<int>": [1, -2] }[types[0]], vb: any = { string: "q", long: -7n, true: true }[types[1]];
        for (const m of [0, 1, 2, 3]) {
          if (one && a === b && (m === 1 || m === 2)) continue;
          const o: any = { _: "x", m: 77 };
          if (m & 1) o.a = va;
          if (m & 2) o.b = vb;
          const want = codec.encode(o), got = new TLWriter().writeObject(o, schema).buffer;
          check(same(got, want), () => `${show(params)} ${show(o)}: ${hex(got)} rather than ${hex(want)}`, "flags are written wrongly");
          const back = new TLReader(want).readType("T", schema);
          check(same(back, o), () => `${show(params)} ${show(o)}: ${show(back)}`, "flags are read wrongly");
          ctl.count("flags");
        }
      }
    }
    ctl.outcome(`${a} ${kind}`);
  },
};
/** Messages and containers in containers. */
const messages: Scenario = {
  name: "messages and containers",
  run: (ctl) => {
    const ids = [0n, 1n, -1n, 0x0102030405060708n, (1n << 63n) - 1n], seqnos = [0, 1, -1, 2147483647];
    const bodies = [4, 8, 12, 252, 256, 1024, 65540].map((n) => new Uint8Array(n).map((_, i) => i + n));
    let n = 0;
    const leaf = (i: number) => ({ _: "message", msg_id: ids[n % 5], seqno: seqnos[n++ % 4], body: bodies[i] });
    const container = (l: any[]) => ({ _: "message", msg_id: ids[n % 5], seqno: seqnos[n++ % 4], body: { _: "msg_container", messages: l } });
    const enc = (w: Bytes, m: any): Bytes => {
      const b = new Bytes();
      if (m.body instanceof Uint8Array) b.raw(m.body);
      else {
        b.u32(0x73F1F8DC).u32(m.body.messages.length);
        for (const x of m.body.messages) enc(b, x);
      }
      return w.i64(m.msg_id).u32(m.seqno).u32(b.length).raw(b.done());
    };
    const shape = (d: number): any => {
      const k = d ? ctl.free(5, "shape") : ctl.free(2, "body");
      if (!d || k < 2) return leaf(ctl.free(d === 2 ? bodies.length : 2, "size"));
      return container([[], [0], [0, 1]][k - 2].map((_) => shape(d - 1)));
    };
    const m = shape(2);
    const want = enc(new Bytes(), m).done();
    const w = new TLWriter().writeInt32(5);
    writeMessage(w, m);
    check(same(w.buffer.slice(4), want), () => `${show(m)} is written wrongly`, "a message is written wrongly");
    const r = new TLReader(new Bytes().raw(want).u32(9).done());
    const back = deserializeMessage(r);
    check(same(back, m) && r.readInt32() === 9, () => `${show(m)} is read as ${show(back)}`, "a message is read wrongly");
    if (!(m.body instanceof Uint8Array)) {
      const b = want.slice(20);
      check(same(deserializeMsgContainer(b), m.body), () => `the container of ${show(m)} is read wrongly`, "a container is read wrongly");
    }
    ctl.outcome(hex(want).slice(0, 200) + want.length);
  },
};

export default {
  id: "L01",
  level: "model_checking",
  rule: "every definition of the three schemas with every listed value in every field (every constructor of its type, in vectors too) and combination of optional fields; every pair of primitives at every listed offset; every length of byte strings up to 1200 and around the limits; a case is non-trivial when its definition, type, or bytes are new",
  assumptions: ["the schema tables of /repo are the schema (they are generated from Telegram's)"],
  exhaustive: true,
  scenarios(tier) {
    const list: Scenario[] = [sequences(2), lengths, flags, messages];
    if (tier === "thorough") list.push(sequences(3));
    for (const [name, l] of Object.entries(LAYERS)) {
      const n = l().names.length;
      for (let i = 0; i < n; i += 200) list.push({ ...objects(l, i, Math.min(n, i + 200)), name: `${name} ${i}` });
      list.push({ ...results(l), name: `results of ${name}` });
    }
    return list;
  },
} satisfies CheckDef;
