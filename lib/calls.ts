// Calls of methods of the real Client with all combinations of parameters: what the model server
// is asked, and what the call gives.
// deno-lint-ignore-file no-explicit-any
import { check, type Ctl, type Scenario } from "./explore.ts";
import { advance, settle } from "./world.ts";
import { be, PRIME, ube } from "./handshake.ts";
import { SALT1, SALT2, Srp, verifier } from "./auth_server.ts";
import { App, channel, group, SELF, selfUser, user } from "./client.ts";

export interface Chat {
  name: string;
  id: number;
  input: any;
  peer: any;
}
export const ALICE: Chat = { name: "a user", id: 11, input: { _: "inputPeerUser", user_id: 11n, access_hash: 11001n }, peer: { _: "peerUser", user_id: 11n } };
export const BOB: Chat = { name: "another user", id: 12, input: { _: "inputPeerUser", user_id: 12n, access_hash: 12001n }, peer: { _: "peerUser", user_id: 12n } };
export const GROUP: Chat = { name: "a group", id: -9, input: { _: "inputPeerChat", chat_id: 9n }, peer: { _: "peerChat", chat_id: 9n } };
export const CHANNEL: Chat = { name: "a channel", id: -1000000000050, input: { _: "inputPeerChannel", channel_id: 50n, access_hash: 50002n }, peer: { _: "peerChannel", channel_id: 50n } };
export const inputUser = (c: Chat) => ({ ...c.input, _: "inputUser" });
export const inputChannel = (c: Chat) => ({ ...c.input, _: "inputChannel" });

/** What is expected of a call. */
export interface Exp {
  chat: Chat;
  bot: boolean;
  /** arguments and parameters */
  a: any;
  p: any;
  /** what the server is asked before */
  before: any[];
  req: any;
  business?: string;
  takeout?: string;
  /** the call is refused, and nothing is asked */
  invalid: boolean;
  /** not decided */
  skip: boolean;
}
export interface Opt {
  key: string;
  /** an argument rather than a parameter */
  arg?: boolean;
  v: any;
  label?: string;
  only?: "bot" | "user";
  set?: (x: Exp) => void;
}
export interface Spec {
  name: string;
  call: (c: any, x: Exp) => Promise<any>;
  bot?: boolean;
  chats?: Chat[];
  req: (x: Exp) => any;
  opts: Opt[];
  finish?: (x: Exp) => void;
  /** the server's answer to the last request */
  answer: (q: any, x: Exp, s: Server) => any;
  /** earlier ones */
  other?: (q: any, x: Exp, s: Server) => any;
  result?: (v: any, x: Exp, s: Server) => void;
  /** asked to find out about things, as often as the client likes */
  ignore?: (q: any) => boolean;
  /** of the client, or a function that gives them */
  params?: any;
  /** chats that are known too */
  known?: any[];
  /** done before the call */
  prepare?: (app: App, x: Exp, s: Server) => Promise<void>;
  /** the server's answers to what is asked by then */
  unready?: (q: any, x: Exp) => any;
  /** a list of the request whose order does not matter */
  reorder?: string;
}
export interface Server {
  next: number;
  made: any[];
  /** the data center of the last request, and whether it is one for files */
  dc?: string;
  media?: boolean;
}

export const PASSWORD = "correct horse";
/** How a request reads, without what is chosen at random. */
export function readRequest(q: any, randoms: bigint[] | null, files: Map<bigint, string>): string {
  const go = (v: any, key: string): any => {
    if (typeof v === "bigint") {
      if (key === "random_id" || key === "poll.id") {
        randoms?.push(v);
        return "random";
      }
      return files.get(v) ?? `${v}n`;
    }
    if (key === "random_id" && typeof v === "number") {
      randoms?.push(BigInt(v));
      return "random";
    }
    if (v instanceof Uint8Array) return "bytes:" + [...v].join(",");
    if (Array.isArray(v)) {
      const l = v.map((x) => go(x, key));
      return key === "attributes" ? l.sort((a, b) => a._ < b._ ? -1 : 1) : l;
    }
    if (v && typeof v === "object") {
      const o: any = {};
      for (const k of Object.keys(v).sort()) {
        const x = v[k];
        if (x === undefined || Array.isArray(x) && !x.length && /^(entities|quote_entities|solution_entities)$/.test(k)) continue;
        o[k] = go(x, v._ === "poll" && k === "id" ? "poll.id" : k);
      }
      return o;
    }
    return v;
  };
  return JSON.stringify(go(q, ""));
}
/** All choices of at most `k` options of different keys. */
export function choices(opts: Opt[], k: number, from = 0): Opt[][] {
  const out: Opt[][] = [[]];
  if (k === 0) return out;
  for (let i = from; i < opts.length; i++) {
    for (const rest of choices(opts, k - 1, i + 1)) if (!rest.some((o) => o.key === opts[i].key && !!o.arg === !!opts[i].arg)) out.push([opts[i], ...rest]);
  }
  return out;
}
const sorted = (l: any[]) => [...l].sort((a, b) => readRequest(a, null, new Map()) < readRequest(b, null, new Map()) ? -1 : 1);
const ALWAYS = /^(messages\.getMessages|channels\.getMessages|updates\..*|users\.getUsers|channels\.getChannels|messages\.getStickerSet|upload\.saveFilePart|help\.getConfig|messages\.getCustomEmojiDocuments)$/;

export function scenario(spec: Spec, k: number): Scenario {
  const combinations = choices(spec.opts, k);
  return {
    name: spec.name + (spec.bot ? " by a bot" : ""),
    shard: true,
    async run(ctl: Ctl) {
      const chat = ctl.pick(spec.chats ?? [ALICE, GROUP, CHANNEL], "chat");
      const chosen = ctl.pick(combinations, "parameters");
      const x: Exp = { chat, bot: !!spec.bot, a: {}, p: {}, before: [], req: null, invalid: false, skip: false };
      for (const o of chosen) (o.arg ? x.a : x.p)[o.key] = o.v;
      x.req = spec.req(x);
      if (spec.reorder && x.req) x.req[spec.reorder] = sorted(x.req[spec.reorder]);
      for (const o of chosen) {
        if (o.only && (o.only === "bot") !== x.bot) x.invalid = true;
        o.set?.(x);
      }
      spec.finish?.(x);
      if (x.skip) {
        ctl.outcome("not decided");
        return;
      }
      const app = new App(ctl, { isBot: spec.bot, params: { defaultHandlers: false, ...(typeof spec.params === "function" ? await spec.params(x) : spec.params ?? {}) } });
      app.create();
      const files = new Map<bigint, string>();
      const sent: { q: any; business?: string; takeout?: string }[] = [];
      const s: Server = { next: 200, made: [] };
      let ready = false, asked: Srp | undefined;
      app.onRequest = (r) => {
        if (!ready) {
          const a = spec.unready?.(r.q, x);
          return a === undefined ? undefined : { result: a };
        }
        s.dc = r.dc;
        s.media = r.media;
        if (r.q._ === "upload.saveFilePart") {
          files.set(r.q.file_id, "file " + [...r.q.bytes].slice(0, 4).join(","));
          return { result: true };
        }
        const ignored = ALWAYS.test(r.q._) || spec.ignore?.(r.q);
        if (!ignored) {
          const w: any = { q: r.q };
          for (let q = r.wrapped.query; q !== r.q; q = q.query) {
            if (q._ === "invokeWithBusinessConnection") w.business = q.connection_id;
            if (q._ === "invokeWithTakeout") w.takeout = String(q.takeout_id);
          }
          // a proof of the password reads as whether it is right
          if (r.q.password?._ === "inputCheckPasswordSRP") w.q = { ...r.q, password: asked && r.q.password.srp_id === 901n && r.q.password.A.length === 256 && asked.verify(ube(r.q.password.A), r.q.password.M1) ? "right" : "wrong" };
          if (spec.reorder && Array.isArray(r.q[spec.reorder])) w.q = { ...r.q, [spec.reorder]: sorted(r.q[spec.reorder]) };
          sent.push(w);
        }
        if (r.q._ === "account.getPassword" && x.before.some((q) => q._ === r.q._)) {
          const algo = { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: SALT1, salt2: SALT2, g: 3, p: be(PRIME, 256) };
          asked = new Srp(verifier(PASSWORD, 3), 3, 70_001n);
          return { result: { _: "account.password", has_password: true, current_algo: algo, srp_B: be(asked.B, 256), srp_id: 901n, new_algo: algo, new_secure_algo: { _: "securePasswordKdfAlgoUnknown" }, secure_random: new Uint8Array(8) } };
        }
        if (!ignored && r.q._ === x.req?._) return { result: spec.answer(r.q, x, s) };
        const a = spec.other?.(r.q, x, s);
        return a === undefined ? undefined : { result: a };
      };
      await app.start();
      app.push({ _: "updates", updates: [{ _: "updateConfig" }], users: [selfUser(), user(11n, { username: "alice" }), user(12n), user(13n)], chats: [group(9n), channel(50n), ...(spec.known ?? [])], date: 1, seq: 0 });
      await settle();
      await spec.prepare?.(app, x, s);
      ready = true;
      let end: any;
      ctl.step(`${spec.name}(${chat.name}, ${readRequest({ ...x.a, ...x.p }, null, files)})`);
      spec.call(app.client, x).then((v: any) => end = { v }, (e: any) => end = { e });
      for (let i = 0; i < 6 && !end; i++) {
        await settle();
        if (!end) await advance(20);
      }
      check(end, `${spec.name} never ends`, "a call never ends");
      const read = (l: typeof sent, randoms: bigint[] | null) => l.map((w) => readRequest(w.q, randoms, files) + (w.business ? ` on behalf of ${w.business}` : "") + (w.takeout ? ` in takeout ${w.takeout}` : "")).join("\n    ");
      const randoms: bigint[] = [];
      const got = read(sent, randoms);
      if (x.invalid) {
        check(/^(Input|Type)Error$/.test(end.e?.constructor?.name), () => `an invalid call ends with ${end.e?.stack ?? JSON.stringify(end.v)}`, `${spec.name}: invalid calls`);
        check(sent.length === 0, () => `an invalid call asks\n    ${got}`, `${spec.name}: invalid calls`);
      } else {
        const want = read([...x.before.map((q) => ({ q })), { q: x.req, business: x.business, takeout: x.takeout }].filter((w) => w.q), null);
        check(got === want, () => `the server is asked\n    ${got || "nothing"}\n  instead of\n    ${want || "nothing"}${end.e ? "\n  and the call fails with " + (end.e.stack ?? end.e) : ""}`, `${spec.name}: the request`);
        check(!end.e, () => `the call fails with ${end.e.stack ?? end.e}`, `${spec.name} fails`);
        check(randoms.every((v) => v !== 0n) && new Set(randoms).size === randoms.length, () => `random identifiers ${randoms}`, `${spec.name}: random identifiers`);
        spec.result?.(end.v, x, s);
      }
      ctl.outcome(x.invalid ? "refused" : sent.at(-1)?.q._ ?? "nothing asked");
      app.client.disconnect();
      await advance(20);
      app.checkUnhandled();
    },
  };
}
