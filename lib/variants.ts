// Values of TL types a server might send: for every type an ordinary value, and all values that
// differ from it along one path (another constructor, an optional field, another element of a list).
// deno-lint-ignore-file no-explicit-any
import { type Param, Values } from "./tl_values.ts";

export interface Variant {
  label: string;
  v: any;
}
const USER_FIELDS = /^(user_id|admin_id|inviter_id|actor_id|promoted_by|kicked_by|peer_user_id|receiver_id|self_id|partner_id|owner_id|auto_setting_from|sender_id|creator_user_id)$/;
const BOT_FIELDS = /^(bot_id|via_bot_id|via_business_bot_id|manager_bot_id|guestchat_via_bot_id|attach_menu_bot_id)$/;

export interface VariantOptions {
  /** ordinary values of fields, by "constructor.field" or by name */
  fields?: Record<string, () => any>;
  /** constructors the server does not send */
  never?: (name: string, path: string) => boolean;
  /** the ordinary constructor of a type */
  ordinary?: Record<string, string>;
  /** optional fields that are ordinarily there */
  present?: string[];
  /** all values of fields, by "constructor.field" */
  values?: Record<string, () => Variant[]>;
  /** types that are not looked into further than this */
  shallow?: Record<string, number>;
}

export class Variants extends Values {
  constructor(schema: any, public opt: VariantOptions = {}) {
    super(schema);
    // without the functions
    this.byType.clear();
    for (const n of new Set<string>(Object.values(schema.identifierToName))) {
      const type = this.defs[n][2];
      this.byType.set(type, [...(this.byType.get(type) ?? []), n]);
    }
  }
  #base = new Map<string, any>();
  ordinary(type: string): string {
    const o = this.opt.ordinary?.[type];
    if (o) return o;
    const l = (this.byType.get(type) ?? []).filter((c) => !/Empty$|Unsupported$|Forbidden$|NotModified$/.test(c) && !this.opt.never?.(c, ""));
    return l[0] ?? this.byType.get(type)![0];
  }
  field(name: string, param: { name: string; type: string }): any {
    const o = this.opt.fields?.[`${name}.${param.name}`] ?? this.opt.fields?.[param.name];
    if (o) {
      const v = o();
      if (v !== undefined) return v;
    }
    const { name: f, type: t } = param;
    if (t === "long") return USER_FIELDS.test(f) ? 12n : BOT_FIELDS.test(f) ? 14n : f === "channel_id" ? 50n : f === "chat_id" ? 9n : 5n;
    if (t === "Vector<long>") return /user|winner|participant/.test(f) ? [12n] : /channel/.test(f) ? [50n] : [5n];
    if (t === "int") return f === "dc_id" || f === "stream_dc_id" ? 2 : /date|expire/.test(f) ? 100 : f === "offset" ? 0 : 5;
    if (t === "string") return /url/.test(f) ? "https://e.org/x" : f;
    return this.base(t);
  }
  /** The ordinary value of a type. */
  base(type: string): any {
    switch (type) {
      case "int":
        return 5;
      case "long":
        return 5n;
      case "double":
        return 1.5;
      case "string":
        return "s";
      case "bytes":
        return new Uint8Array([1, 2]);
      case "true":
        return true;
      case "Bool":
        return true;
      case "int128":
      case "int256":
        return 7n;
    }
    const el = this.vector(type);
    if (el) return this.#deep.includes(el) ? [] : [this.base(el)];
    return this.make(this.bare(type) ?? this.ordinary(type));
  }
  #deep: string[] = [];
  /** The ordinary value of a constructor: without optional fields. */
  make(name: string, all = false): any {
    const type = this.defs[name][2];
    const v: any = { _: name };
    this.#deep.push(type);
    try {
      if (this.#deep.length > 12) throw new Error("endless type: " + this.#deep);
      for (const p of this.params(name)) {
        if (p.flag && !this.opt.present?.includes(`${name}.${p.name}`) && (!all || this.#deep.length > 6)) continue;
        v[p.name] = this.field(name, p);
      }
    } finally {
      this.#deep.pop();
    }
    return v;
  }
  /** The fields that can only be there together with another one. */
  #together(name: string, p: Param, params: Param[]) {
    const v: any = {};
    if (p.flag) for (const q of params) if (q !== p && q.flag?.field === p.flag.field && q.flag.bit === p.flag.bit) v[q.name] = this.field(name, q);
    return v;
  }
  /** All constructors of a type, and what each differs in. */
  *of(type: string, depth: number, path = "", name = ""): Generator<Variant> {
    const f = path.split(".").at(-1)!;
    switch (type) {
      case "true":
        yield { label: path, v: true };
        return;
      case "Bool":
        yield { label: path + "=true", v: true };
        yield { label: path + "=false", v: false };
        return;
      case "string":
        yield { label: path, v: this.field(name, { name: f, type }) };
        yield { label: path + '=""', v: "" };
        return;
      case "int":
      case "double":
        yield { label: path, v: this.field(name, { name: f, type }) };
        yield { label: path + "=0", v: 0 };
        return;
      case "long":
      case "bytes":
      case "int128":
      case "int256":
        yield { label: path, v: this.field(name, { name: f, type }) };
        return;
    }
    const el = this.vector(type);
    if (el) {
      yield { label: path + "[]", v: [] };
      if (depth <= 0) return;
      const o = this.field(name, { name: f, type });
      if (!/^[a-z]/.test(el)) { for (const x of this.of(el, depth, path)) yield { label: x.label, v: [x.v] }; }
      else yield { label: path + "[1]", v: o };
      if (o.length) yield { label: path + "[2]", v: [...o, ...structuredClone(o)] };
      return;
    }
    const bare = this.bare(type);
    for (const c of bare ? [bare] : this.byType.get(type) ?? []) {
      if (this.opt.never?.(c, path)) continue;
      yield* this.vary(c, depth, `${path ? path + "." : ""}${c}`);
    }
  }
  *vary(name: string, depth: number, path: string): Generator<Variant> {
    yield { label: path, v: this.make(name) };
    if (depth <= 0) return;
    const limit = path.split(".").length > 3 ? this.opt.shallow?.[this.defs[name][2]] : undefined;
    const params = this.params(name);
    if (params.filter((p) => p.flag).length > 1) yield { label: path + "(all)", v: this.make(name, true) };
    if (limit === 0) return;
    for (const p of params) {
      if (p.flag && this.opt.present?.includes(`${name}.${p.name}`) && !this.opt.never?.(`no ${p.name}`, path)) {
        const v = this.make(name);
        delete v[p.name];
        yield { label: `${path}-${p.name}`, v };
      }
      const values = this.opt.values?.[`${name}.${p.name}`];
      if (values) {
        for (const x of values()) yield { label: `${path}.${p.name}=${x.label}`, v: { ...this.make(name), ...this.#together(name, p, params), [p.name]: x.v } };
        continue;
      }
      for (const x of this.of(p.type, limit ? Math.min(depth - 1, limit - 1) : depth - 1, `${path}.${p.name}`, name)) yield { label: x.label, v: { ...this.make(name), ...this.#together(name, p, params), [p.name]: x.v } };
    }
  }
}
