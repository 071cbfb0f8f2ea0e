// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { Bytes, Codec, Rd, same, show } from "../lib/tl.ts";
import { type Layer, LAYERS } from "./L01.ts";
import { deserializeMessage, deserializeMsgContainer } from "/repo/tl/2_message.ts";
import { TLReader } from "/repo/tl/1_tl_reader.ts";

const hex = (b: Uint8Array) => [...b.slice(0, 120)].map((x) => x.toString(16).padStart(2, "0")).join("") + (b.length > 120 ? "..." : "");

class Unspecified extends Error {}
/** Reads nothing but what TL allows. */
class Strict extends Codec {
  constructor(public layer: Layer) {
    super(layer.api.schema);
  }
  override read(r: Rd, type: string): any {
    if (type === "string" || type === "bytes") {
      if (r.left && r.b[r.o] === 255) throw new Unspecified();
    } else if (/^[Vv]ector</.test(type)) {
      const o = r.o;
      if (type[0] === "V") r.u32();
      const n = r.i32();
      r.o = o;
      if (n < 0) throw new Error("negative count");
      // such a space is reserved before reading: slow, and not different from other counts
      if (n > 4096 && n <= 1 << 26) throw new Unspecified();
    } else if (this.layer.values.byType.has(type) && !["Bool", "True"].includes(type)) {
      const o = r.o;
      const name = this.byId.get(r.u32());
      r.o = o;
      if (!name || this.defs[name][2] !== type || !this.layer.types.has(name)) throw new Error("a constructor of another type");
    }
    return super.read(r, type);
  }
  override boxed(r: Rd): any {
    const o = r.o, name = this.byId.get(r.u32());
    r.o = o;
    if (name && !this.layer.types.has(name)) throw new Error("not a type");
    return super.boxed(r);
  }
}

function judge(l: Layer, oracle: Strict, type: string, b: Uint8Array, why: () => string, ctl: Ctl) {
  const all = new Uint8Array(b.length + 16).fill(0);
  all.set(b, 8);
  const attempt = (f: () => any): { v?: any; e?: any } => {
    try {
      return { v: f() };
    } catch (e) {
      return { e };
    }
  };
  const rd = new Rd(b);
  const want = attempt(() => type === "X" ? oracle.boxed(rd) : oracle.read(rd, type));
  if (want.e instanceof Unspecified) return;
  const reader = new TLReader(all.subarray(8, 8 + b.length));
  const got = attempt(() => l.api.deserializeType(type, reader));
  ctl.count(want.e ? "malformed" : "well-formed");
  if (want.e) check(got.e, () => `${why()}: ${hex(b)} is read as ${type} ${show(got.v)} (${want.e.message})`, "malformed data is read as an object");
  else {
    check(!got.e, () => `${why()}: ${hex(b)} is not read as ${type} ${show(want.v)}: ${got.e.message}`, "well-formed data is refused");
    check(same(got.v, want.v), () => `${why()}: ${hex(b)} is read as ${type} ${show(got.v)} rather than ${show(want.v)}`, "data is misread");
    check(reader.buffer.length === rd.left, () => `${why()}: ${hex(b)}: reading ${type} ends ${reader.buffer.length} rather than ${rd.left} bytes before the end`, "reading ends in the wrong place");
  }
}

function corruptions(name: string, l: () => Layer, from: number, to: number, thorough: boolean): Scenario {
  return {
    name,
    run: (ctl) => {
      const L = l();
      const oracle = new Strict(L);
      const names = L.names.filter((n) => L.types.has(n)).slice(from, to);
      const n = names[ctl.free(names.length, "definition")];
      const type = L.api.schema.definitions[n][2];
      const params = L.values.params(n);
      const full = L.values.object(n, Object.fromEntries(params.map((p) => [p.name, L.values.vector(p.type) === null ? L.values.least(p.type) : [L.values.least(L.values.vector(p.type)!), L.values.least(L.values.vector(p.type)!)]])));
      const siblings = L.values.byType.get(type)!;
      const ids = (name: string) => L.api.schema.definitions[name][0] as number;
      const words = [0, 1, 2, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x1CB5C415, 0x997275b5, 0xbc799737, 0x3FEDD339, ids(n), ids(siblings[(siblings.indexOf(n) + 1) % siblings.length]), ids(L.names[(L.names.indexOf(n) + 1) % L.names.length])];
      const fn = L.names.find((x) => !L.types.has(x));
      if (fn) words.push(ids(fn));
      for (const o of [L.values.object(n), full]) {
        const b = oracle.encode(o);
        for (const as of ["X", type]) {
          const go = (x: Uint8Array, why: string) => judge(L, oracle, as, x, () => `${n}: ${why}`, ctl);
          go(b, "intact");
          for (let i = 0; i < b.length; i++) go(b.slice(0, i), `the first ${i} bytes`);
          const x = b.slice();
          const w = (i: number, v: number) => (x[i] = v, x[i + 1] = v >>> 8, x[i + 2] = v >>> 16, x[i + 3] = v >>> 24);
          for (let i = 0; i + 4 <= b.length; i += 4) {
            for (const v of words) w(i, v), go(x, `${v.toString(16)} at ${i}`);
            x.set(b.subarray(i, i + 4), i);
            if (i + 8 <= b.length) {
              x.set(b.subarray(i + 4, i + 8), i), x.set(b.subarray(i, i + 4), i + 4);
              go(x, `words exchanged at ${i}`);
              x.set(b.subarray(i, i + 8), i);
            }
            const cut = new Uint8Array(b.length - 4);
            cut.set(b.subarray(0, i)), cut.set(b.subarray(i + 4), i);
            go(cut, `without the word at ${i}`);
          }
          for (let i = 0; i < b.length; i++) {
            for (let k = 0; k < 8; k++) x[i] = b[i] ^ 1 << k, go(x, `bit ${k} of byte ${i}`);
            if (thorough) for (let v = 0; v < 256; v++) x[i] = v, go(x, `${v} at ${i}`);
            else for (const v of [0, 253, 254]) x[i] = v, go(x, `${v} at ${i}`);
            x[i] = b[i];
          }
        }
      }
      ctl.outcome(n);
    },
  };
}

/** Messages and containers with wrong lengths and counts. */
const messages: Scenario = {
  name: "messages and containers",
  run: (ctl) => {
    const counts = [0, 1, 2, 3, -1, 0x7fffffff, -0x80000000];
    const lengths = [4, 8, 0, 1, 3, 5, 12, 24, 28, 100, -1, -4, -16, -20, 0x7fffffff, -0x80000000];
    const read = (r: Rd): any => {
      const msg_id = r.i64(), seqno = r.i32(), n = r.i32();
      if (n < 0) throw new Error("negative length");
      const body = r.raw(n);
      if (new Rd(body).u32() !== 0x73F1F8DC) return { _: "message", msg_id, seqno, body };
      return { _: "message", msg_id, seqno, body: container(new Rd(body.slice(4))) };
    };
    const container = (r: Rd): any => {
      const n = r.i32();
      if (n < 0) throw new Error("negative count");
      const messages = [];
      for (let i = 0; i < n; i++) messages.push(read(r));
      return { _: "msg_container", messages };
    };
    const kind = ctl.free(2, "kind");
    const count = counts[ctl.free(counts.length, "count")], actual = ctl.free(3, "messages");
    const b = new Bytes();
    b.u32(count);
    for (let i = 0; i < actual; i++) {
      const len = lengths[ctl.free(lengths.length, "length")], body = [4, 8, 0][ctl.free(3, "body")];
      b.i64(77n + BigInt(i)).u32(i).u32(len).raw(new Uint8Array(body).fill(0x10 + i));
    }
    const inner = b.done();
    const bytes = kind ? new Bytes().i64(5n).u32(3).u32(inner.length + 4).u32(0x73F1F8DC).raw(inner).done() : inner;
    for (let cut = 0; cut <= 8 && cut <= bytes.length; cut++) {
      const x = bytes.slice(0, bytes.length - cut);
      let want: any, got: any, we: any, ge: any;
      try {
        want = kind ? read(new Rd(x)) : container(new Rd(x));
      } catch (e) {
        we = e;
      }
      const around = new Uint8Array(x.length + 64).fill(0);
      around.set(x, 16);
      const view = around.subarray(16, 16 + x.length);
      try {
        got = kind ? deserializeMessage(new TLReader(view)) : deserializeMsgContainer(view);
      } catch (e) {
        ge = e;
      }
      ctl.count(we ? "malformed" : "well-formed");
      if (we) check(ge, () => `${hex(x)} is read as ${show(got)} (${we.message})`, "a malformed message is read");
      else check(!ge && same(got, want), () => `${hex(x)} is read as ${ge?.message ?? show(got)} rather than ${show(want)}`, "a message is misread");
    }
    ctl.outcome(hex(bytes));
  },
};

export default {
  id: "L02",
  level: "model_checking",
  rule: "the smallest and the fullest object of every constructor of the three schemas, with every truncation, every bit inverted, every word replaced by each of the listed ones, exchanged or left out; containers with every combination of the listed counts and lengths; non-trivial when the constructor or the container is new",
  assumptions: ["a length byte of 255 and trailing bytes are not specified"],
  exhaustive: true,
  scenarios(tier) {
    const list: Scenario[] = [messages];
    for (const [name, l] of Object.entries(LAYERS)) {
      const n = l().names.filter((x) => l().types.has(x)).length;
      for (let i = 0; i < n; i += 40) list.push(corruptions(`${name} ${i}`, l, i, Math.min(n, i + 40), tier === "thorough"));
    }
    return list;
  },
} satisfies CheckDef;
