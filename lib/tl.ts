// Independent TL codec, driven by the schema tables only. Used as the server side of
// every protocol harness and as the oracle of the codec checks; shares no code with
// the reader and writer of /repo.
// deno-lint-ignore-file no-explicit-any
export type Schema = { definitions: Record<string, [number, [string, string][], string]> };

export class Bytes {
  #parts: Uint8Array[] = [];
  length = 0;
  raw(b: Uint8Array) {
    this.#parts.push(b.slice());
    this.length += b.length;
    return this;
  }
  u32(n: number) {
    const b = new Uint8Array(4);
    b[0] = n & 255, b[1] = (n >>> 8) & 255, b[2] = (n >>> 16) & 255, b[3] = (n >>> 24) & 255;
    return this.raw(b);
  }
  big(n: bigint, bytes: number) {
    const b = new Uint8Array(bytes);
    let v = BigInt.asUintN(bytes * 8, n);
    for (let i = 0; i < bytes; i++) b[i] = Number(v & 255n), v >>= 8n;
    return this.raw(b);
  }
  i64(n: bigint) {
    return this.big(n, 8);
  }
  f64(n: number) {
    return this.raw(new Uint8Array(new Float64Array([n]).buffer));
  }
  bytes(b: Uint8Array) {
    const head = b.length < 254 ? Uint8Array.of(b.length) : Uint8Array.of(254, b.length & 255, (b.length >> 8) & 255, (b.length >> 16) & 255);
    this.raw(head).raw(b);
    const pad = (4 - ((head.length + b.length) & 3)) & 3;
    return this.raw(new Uint8Array(pad));
  }
  str(s: string) {
    return this.bytes(new TextEncoder().encode(s));
  }
  done(): Uint8Array<ArrayBuffer> {
    const r = new Uint8Array(this.length);
    let o = 0;
    for (const p of this.#parts) r.set(p, o), o += p.length;
    return r;
  }
}

export class Rd {
  b: Uint8Array;
  o = 0;
  constructor(b: Uint8Array) {
    this.b = b;
  }
  get left() {
    return this.b.length - this.o;
  }
  raw(n: number) {
    if (n < 0 || this.o + n > this.b.length) throw new Error("read past the end");
    const r = this.b.slice(this.o, this.o + n);
    this.o += n;
    return r;
  }
  u32() {
    const b = this.raw(4);
    return (b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24)) >>> 0;
  }
  i32() {
    return this.u32() | 0;
  }
  big(n: number) {
    const b = this.raw(n);
    let v = 0n;
    for (let i = n - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]);
    return BigInt.asIntN(n * 8, v);
  }
  i64() {
    return this.big(8);
  }
  f64() {
    return new Float64Array(this.raw(8).buffer)[0];
  }
  bytes() {
    let n = this.raw(1)[0];
    let head = 1;
    if (n === 254) {
      const l = this.raw(3);
      n = l[0] | (l[1] << 8) | (l[2] << 16);
      head = 4;
    }
    const r = this.raw(n);
    const pad = (4 - ((head + n) & 3)) & 3;
    this.raw(pad);
    return r;
  }
  str() {
    return new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.bytes());
  }
}

const VEC = 0x1CB5C415, TRUE = 0x997275b5, FALSE = 0xbc799737;

function flagOf(t: string): { field: string; bit: number; inner: string } | null {
  const q = t.indexOf("?");
  if (q < 0) return null;
  const [field, bit] = t.slice(0, q).split(".");
  return { field, bit: Number(bit), inner: t.slice(q + 1) };
}
function vecOf(t: string): { inner: string; bare: boolean } | null {
  const m = /^([Vv])ector<(.*)>$/.exec(t);
  return m ? { inner: m[2], bare: m[1] === "v" } : null;
}

export class Codec {
  defs: Schema["definitions"];
  byId = new Map<number, string>();
  constructor(schema: Schema) {
    this.defs = schema.definitions;
    for (const [name, d] of Object.entries(this.defs)) this.byId.set(d[0] >>> 0, name);
  }
  encode(o: any): Uint8Array<ArrayBuffer> {
    const w = new Bytes();
    this.object(w, o, true);
    return w.done();
  }
  encodeType(type: string, v: any): Uint8Array<ArrayBuffer> {
    const w = new Bytes();
    this.value(w, type, v);
    return w.done();
  }
  object(w: Bytes, o: any, id: boolean) {
    const d = this.defs[o?._];
    if (!d) throw new Error(`oracle codec: unknown constructor ${o?._}`);
    if (id) w.u32(d[0]);
    for (const [name, type] of d[1]) {
      if (type === "#") {
        let f = 0;
        for (const [n2, t2] of d[1]) {
          const g = flagOf(t2);
          if (g && g.field === name && o[n2] !== undefined) f |= 1 << g.bit;
        }
        w.u32(f >>> 0);
        continue;
      }
      const g = flagOf(type);
      if (g) {
        if (o[name] !== undefined) this.value(w, g.inner, o[name]);
        continue;
      }
      this.value(w, type, o[name]);
    }
  }
  value(w: Bytes, type: string, v: any) {
    switch (type) {
      case "int":
        return void w.u32(v);
      case "long":
        return void w.big(v, 8);
      case "int128":
        return void w.big(v, 16);
      case "int256":
        return void w.big(v, 32);
      case "double":
        return void w.f64(v);
      case "bytes":
        return void w.bytes(v);
      case "string":
        return void (v instanceof Uint8Array ? w.bytes(v) : w.str(v));
      case "Bool":
        return void w.u32(v ? TRUE : FALSE);
      case "true":
        return;
    }
    const vec = vecOf(type);
    if (vec) {
      if (!vec.bare) w.u32(VEC);
      w.u32(v.length);
      for (const x of v) this.value(w, vec.inner, x);
      return;
    }
    if (type.startsWith("%")) return this.object(w, v, false);
    // a bare constructor as a type
    if (this.defs[type] && this.defs[type][2] !== type && type[0].toLowerCase() === type[0] && !type.includes(".")) return this.object(w, v, false);
    return this.object(w, v, true);
  }
  decode(b: Uint8Array): any {
    const r = new Rd(b);
    const v = this.boxed(r);
    return v;
  }
  boxed(r: Rd): any {
    const id = r.u32();
    if (id === VEC) throw new Error("oracle codec: vector of unknown type");
    if (id === TRUE) return true;
    if (id === FALSE) return false;
    const name = this.byId.get(id);
    if (!name) throw new Error(`oracle codec: unknown id ${id.toString(16)}`);
    return this.body(r, name);
  }
  body(r: Rd, name: string): any {
    const o: any = { _: name };
    const flags: Record<string, number> = {};
    for (const [n, type] of this.defs[name][1]) {
      if (type === "#") {
        flags[n] = r.u32();
        continue;
      }
      const g = flagOf(type);
      if (g) {
        if ((flags[g.field] ?? 0) & (1 << g.bit)) o[n] = this.read(r, g.inner);
        continue;
      }
      o[n] = this.read(r, type);
    }
    return o;
  }
  read(r: Rd, type: string): any {
    switch (type) {
      case "int":
        return r.i32();
      case "long":
        return r.i64();
      case "int128":
        return r.big(16);
      case "int256":
        return r.big(32);
      case "double":
        return r.f64();
      case "bytes":
        return r.bytes();
      case "string":
        return r.str();
      case "true":
        return true;
      case "Bool": {
        const id = r.u32();
        if (id !== TRUE && id !== FALSE) throw new Error("bad Bool");
        return id === TRUE;
      }
    }
    const vec = vecOf(type);
    if (vec) {
      if (!vec.bare && r.u32() !== VEC) throw new Error("bad vector");
      const n = r.u32();
      const a = [];
      for (let i = 0; i < n; i++) a.push(this.read(r, vec.inner));
      return a;
    }
    if (this.defs[type] && this.defs[type][2] !== type && type[0].toLowerCase() === type[0] && !type.includes(".")) return this.body(r, type);
    return this.boxed(r);
  }
}

export function same(a: any, b: any): boolean {
  if (a === b) return true;
  if (a instanceof Uint8Array || b instanceof Uint8Array) {
    if (!(a instanceof Uint8Array) || !(b instanceof Uint8Array) || a.length !== b.length) return false;
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false;
    return true;
  }
  if (typeof a === "number" && typeof b === "number") return Number.isNaN(a) && Number.isNaN(b);
  if (Array.isArray(a) || Array.isArray(b)) {
    if (!Array.isArray(a) || !Array.isArray(b) || a.length !== b.length) return false;
    return a.every((x, i) => same(x, b[i]));
  }
  if (a instanceof Date && b instanceof Date) return a.getTime() === b.getTime();
  if (typeof a === "object" && typeof b === "object" && a && b) {
    const ka = Object.keys(a).filter((k) => a[k] !== undefined).sort(), kb = Object.keys(b).filter((k) => b[k] !== undefined).sort();
    return ka.length === kb.length && ka.every((k, i) => k === kb[i] && same(a[k], b[k]));
  }
  return false;
}
export function show(v: any, depth = 0): string {
  if (typeof v === "bigint") return `${v}n`;
  if (v instanceof Uint8Array) return `<${v.length}:${[...v.slice(0, 8)].map((x) => x.toString(16).padStart(2, "0")).join("")}${v.length > 8 ? ".." : ""}>`;
  if (v instanceof Error) return `${v.name}: ${v.message}`;
  if (v instanceof Date) return `Date(${v.getTime()})`;
  if (Array.isArray(v)) return depth > 4 ? "[..]" : `[${v.map((x) => show(x, depth + 1)).join(", ")}]`;
  if (v && typeof v === "object") return depth > 4 ? "{..}" : `{${Object.entries(v).filter(([, x]) => x !== undefined).map(([k, x]) => `${k}: ${show(x, depth + 1)}`).join(", ")}}`;
  return typeof v === "string" ? JSON.stringify(v) : String(v);
}
