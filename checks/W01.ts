// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario, Violation } from "../lib/explore.ts";
import { advance, settle, timers, W } from "../lib/world.ts";
import { Bus } from "../lib/worker_bus.ts";
import { App, SELF } from "../lib/client.ts";
import { content } from "../lib/files.ts";
import { same } from "../lib/tl.ts";
import { VOID } from "../lib/void_methods.ts";
import { Client } from "/repo/client/6_client.ts";
import { ClientDispatcher } from "/repo/client/6_client_dispatcher.ts";
import { ClientWorker } from "/repo/client/7_client_worker.ts";
import { Composer } from "/repo/client/5_composer.ts";
import * as errors from "/repo/4_errors.ts";
import { FileType, serializeFileId } from "/repo/types/_file_id.ts";

/** Replaces methods of all clients, and undoes that. */
class Stubs {
  violation: Violation | null = null;
  #before = new Map<string, PropertyDescriptor | undefined>();
  set(method: string, f: (this: any, ...args: any[]) => any) {
    if (!this.#before.has(method)) this.#before.set(method, Object.getOwnPropertyDescriptor(Client.prototype, method));
    Object.defineProperty(Client.prototype, method, { value: this.guard(f), configurable: true, writable: true });
  }
  /** What fails in code called by the library is not lost there. */
  guard(f: (...args: any[]) => any) {
    const note = (e: any) => {
      if (e instanceof Violation) this.violation ??= e;
      throw e;
    };
    return function (this: any, ...args: any[]) {
      try {
        const r = f.apply(this, args);
        return r instanceof Promise ? r.catch(note) : r;
      } catch (e) {
        note(e);
      }
    };
  }
  checkAll() {
    if (this.violation) throw this.violation;
    check(!W.unhandled.length, () => "unhandled error: " + String((W.unhandled[0] as any)?.stack ?? W.unhandled[0]));
  }
  restore() {
    for (const [m, d] of this.#before) d ? Object.defineProperty(Client.prototype, m, d) : delete (Client.prototype as any)[m];
    this.#before.clear();
  }
}
const plain = (v: unknown): string =>
  JSON.stringify(v, (_k, x) => typeof x === "bigint" ? `${x}n` : x instanceof Uint8Array ? `bytes ${x}` : x === undefined ? "undefined" : x);
function sameValue(a: any, b: any): boolean {
  if (Object.is(a, b)) return true;
  if (typeof a !== "object" || typeof b !== "object" || !a || !b) return false;
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && a.getTime() === b.getTime();
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && same(a, b);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => kb.includes(k) && sameValue(a[k], b[k]));
}
/** Everything an application can see of an error. */
const seen = (e: any) => ({ class: e?.constructor, name: e?.name, message: e?.message, errorCode: e?.errorCode, errorMessage: e?.errorMessage, cause: e?.cause, seconds: e?.seconds, dc: e?.dc, code: e?.code, path: e?.path, originalMessage: e?.originalMessage });
function checkError(got: any, want: any) {
  check(got instanceof Error, () => `the call fails with ${plain(got)} instead of an error`, "a call fails with something else than an error");
  if (!(want instanceof errors.MtkrutoError)) return;
  const a: any = seen(got), b: any = seen(want);
  for (const k in b) check(k === "class" ? a[k] === b[k] : sameValue(a[k], b[k]), () => `${b.class?.name} arrives as ${a.class?.name} with another ${k}: ${String(plain(a[k])).slice(0, 200)} instead of ${String(plain(b[k])).slice(0, 200)}`, `an error arrives with another ${k}`);
}
const ownMethods = () => {
  const c = Object.getOwnPropertyNames(Client.prototype), d = Object.getOwnPropertyNames(ClientDispatcher.prototype);
  const f = (p: any, m: string) => typeof Object.getOwnPropertyDescriptor(p, m)?.value === "function";
  return c.filter((m) => d.includes(m) && f(Client.prototype, m) && f(ClientDispatcher.prototype, m) && !["constructor", "start", "signIn", "download", "handleUpdate", "invoke"].includes(m));
};

/** Every method: the call of the application is the call of the client in the worker, and so is its end. */
function methods(shared: boolean): Scenario {
  return {
    name: `every method, ${shared ? "shared worker" : "worker"}`,
    async run(ctl: Ctl) {
      const bus = new Bus(shared);
      bus.auto = true;
      const stubs = new Stubs();
      try {
        const w = new ClientWorker(bus.worker);
        const client: any = await w.createClient(bus.id("a"), { apiId: 1, apiHash: "x" } as any);
        const list = ownMethods();
        check(list.length > 100, "methods are missing");
        const m = list[ctl.free(list.length, "method")];
        const count = Math.max(client[m].length, (Client.prototype as any)[m].length);
        const end = ctl.pick(["value", "nothing", "error", "other error"], "end");
        const args = Array.from({ length: count }, (_, i) => i % 2 ? { tag: i, bytes: new Uint8Array([1, 2, i]), big: 5n ** 30n, list: [{ x: null }, undefined, new Date(i)] } : `${m} ${i}`);
        const value = { of: m, n: [1n, { d: new Date(5) }], u: undefined, b: new Uint8Array(3) };
        const error = end === "error" ? new errors.InputError("no " + m) : new RangeError("x");
        const calls: any[] = [];
        stubs.set(m, function (...a: any[]) {
          calls.push([this, a]);
          if (end.endsWith("error")) return Promise.reject(error);
          return Promise.resolve(end === "value" ? value : undefined);
        });
        ctl.step(`${m}(${count} arguments) ends with ${end}`);
        let got: any;
        client[m](...args).then((v: any) => got = { v }, (e: any) => got = { e });
        await settle();
        check(calls.length === 1, () => `${m} is called ${calls.length} times in the worker`, "a call of a method is not one call in the worker");
        const [target, a] = calls[0];
        check(target instanceof Client, "a method is called on something else than a client");
        check(args.every((x, i) => sameValue(x, a[i])) && a.slice(count).every((x: any) => x === undefined), () => `${m} is called with ${plain(a)} instead of ${plain(args)}`, `${m} is called with other arguments`);
        check(got, () => `${m} does not end`, "a call does not end");
        if (end.endsWith("error")) {
          check(got.e, () => `${m} succeeds although it failed`, "a failed call succeeds");
          checkError(got.e, error);
        } else {
          check("v" in got, () => `${m} fails: ${got.e}`, "a call that succeeded fails");
          const want = end === "value" ? value : undefined;
          check(VOID.has(m) || sameValue(got.v, want), () => `${m} gives ${plain(got.v)} instead of ${plain(want)}`, `the result of ${m} is another one`);
        }
        ctl.outcome(m + end);
        stubs.checkAll();
      } finally {
        stubs.restore();
      }
    },
  };
}
const app0 = (unhandled: unknown[]) => check(!unhandled.length, () => "unhandled error: " + String((unhandled[0] as any)?.stack ?? unhandled[0]));

const ERRORS: (() => any)[] = [];
{
  const telegram = (message: string, code: number, call: any) => ERRORS.push(() => errors.constructTelegramError({ _: "rpc_error", error_code: code, error_message: message } as any, call));
  const calls = [{ _: "help.getConfig" }, { _: "messages.sendMessage", peer: { _: "inputPeerUser", user_id: 5n, access_hash: -1n }, message: "x", random_id: 7n, entities: [] }, { _: "upload.getFile", location: { file_reference: new Uint8Array([1, 2]) }, offset: 0n, limit: 1 }];
  Object.keys((errors as any).map).forEach((m, i) => telegram(m, 400 + i % 7, calls[i % calls.length]));
  for (const m of ["FLOOD_WAIT_0", "FLOOD_WAIT_86400", "FILE_MIGRATE_4", "PHONE_MIGRATE_2", "USER_MIGRATE_5", "STATS_MIGRATE_1", "NETWORK_MIGRATE_3", "SOMETHING_NEW", "", "FLOOD_PREMIUM_WAIT_5"]) telegram(m, m.includes("WAIT") ? 420 : 303, calls[1]);
  const e = errors as any;
  for (const message of ["", "some text", "línea 😀"]) {
    ERRORS.push(() => new e.ConnectionError(message), () => new e.AccessError(message), () => new e.InputError(message));
    ERRORS.push(() => new e.TLError(message, []), () => new e.TLError(message, ["a", "b[1]", "c"]));
  }
  for (const code of [404, 429, 444, 0, -1]) ERRORS.push(() => new e.TransportError(code));
  ERRORS.push(() => new Error("x"), () => new TypeError("y"), () => new e.RetryError("z"), () => new DOMException("aborted", "AbortError"));
  ERRORS.push(() => "text", () => undefined, () => null, () => 5, () => ({ a: 1 }));
}
/** Every error: from a call in the worker to the application, and from a handler of the application to the worker. */
function everyError(): Scenario {
  return {
    name: "every error",
    async run(ctl: Ctl) {
      const bus = new Bus(false);
      bus.auto = true;
      const stubs = new Stubs();
      try {
        const w = new ClientWorker(bus.worker);
        const client: any = await w.createClient(bus.id("a"), { apiId: 1, apiHash: "x" } as any);
        const error = ERRORS[ctl.free(ERRORS.length, "error")]();
        const message = error?.errorMessage;
        if (message && message in errors.map) check(error.constructor.name.replaceAll("_", "").toUpperCase() === message.replaceAll("_", "").toUpperCase(), () => `${message} is made a ${error.constructor.name}`, "an error of Telegram has another class");
        stubs.set("getChat", () => Promise.reject(error));
        ctl.step(`getChat fails with ${error}`);
        let got: any;
        client.getChat(5).then((v: any) => got = { v }, (e: any) => got = { e });
        await settle();
        check(got && "e" in got, () => got ? "a failed call succeeds" : "a call that failed does not end");
        if (error?.name === "RetryError") check(got.e instanceof Error, "an error arrives as something else");
        else checkError(got.e, error);
        ctl.outcome(String(error));
        stubs.checkAll();
      } finally {
        stubs.restore();
      }
    },
  };
}

interface SchedCfg {
  clients: number;
  shared?: boolean;
  calls: number;
  updates: number;
  /** getMe of the clients is answered when the explorer says so */
  slowMe?: boolean;
  slowHandlers?: boolean;
  worker?: number;
  reinit?: boolean;
  budget: number;
}
/** Calls, updates and failures of the worker in any order. */
function schedule(name: string, cfg: SchedCfg): Scenario {
  return {
    name,
    budget: cfg.budget,
    shard: true,
    async run(ctl: Ctl) {
      const bus = new Bus(!!cfg.shared);
      const stubs = new Stubs();
      interface Call {
        tag: string;
        client: number;
        state: "sent" | "running" | "answered" | "done";
        finish?: (how: string) => void;
        how?: string;
        broken?: unknown;
        end?: { v?: any; e?: any };
      }
      interface C {
        name: string;
        d: any;
        real: any;
        n: number;
        emitted: number;
        begun: number;
        emitting: boolean;
        epoch: number;
      }
      try {
        let workerErrors = 0;
        const calls: Call[] = [];
        const mes: [string, () => void][] = [];
        const running: [string, () => void][] = [];
        const w = new ClientWorker(bus.worker);
        const cs: C[] = [];
        stubs.set("getChat", async function (tag: string) {
          const c = calls.find((x) => x.tag === tag);
          check(c && (c.state === "sent" || c.how === "lost" || c.broken), () => `the worker is asked for ${tag}, which was ${c?.state ?? "never asked for"}`, "a call is made again, or never was");
          check(cs[c.client].real === this, "a call reaches the client of another one");
          if (c.state === "sent") c.state = "running";
          ctl.note(`${tag} runs`);
          await new Promise<void>((resolve) => c.finish = (how) => (c.how ??= how, resolve()));
          if (c.state === "running") c.state = "answered";
          if (c.how === "fails") throw new errors.InputError(tag);
          if (c.how === "cannot be sent") return { f: () => 5 };
          return { tag };
        });
        stubs.set("connect", async function () {
          const c = cs.find((x) => x.real === null)!;
          check(c, "an unknown client connects");
          check(!cs.some((x) => x.real === this), "two clients are one");
          c.real = this;
        });
        stubs.set("disconnect", () => Promise.resolve());
        stubs.set("getMe", async function () {
          const i = cs.findIndex((x) => x.real === this);
          check(i >= 0, "an unknown client is asked who it is");
          if (cfg.slowMe) await new Promise<void>((r) => mes.push([`getMe of ${cs[i].name}`, r]));
          return { id: 100 + i };
        });
        const pump = async () => {
          for (let i = 0; i < 50; i++) {
            await settle();
            if (!bus.toWorker.length && !bus.toParent.length) break;
            while (bus.toWorker.length) bus.deliverToWorker();
            while (bus.toParent.length) bus.deliverToParent();
          }
        };
        for (let i = 0; i < cfg.clients; i++) {
          const c: C = { name: "ab"[i], d: null, real: null, n: 0, emitted: 0, begun: 0, emitting: false, epoch: 0 };
          const p = w.createClient(bus.id(c.name), { apiId: 1, apiHash: "x" } as any).then((d) => c.d = d);
          let twice: any;
          if (i === 0) w.createClient(bus.id(c.name)).then(() => twice = 1, (e) => twice = e);
          await pump();
          await p;
          check(i !== 0 || twice instanceof errors.InputError, "a client is created twice");
          cs.push(c);
          c.d.use(stubs.guard(async (ctx: any, next: any) => {
            const u = ctx.update;
            check(ctx.client === c.d, "a handler is given another client");
            check(u?.deletedMessages?.[0]?.owner === c.name, () => `${c.name} is given an update of another client`, "an update reaches another client");
            check(ctx.me?.id === 100 + i, () => `a handler is told that it is ${plain(ctx.me)}`, "a handler is told it is somebody else");
            const n = u.deletedMessages[0].messageId;
            check(workerErrors ? n >= c.begun : n === c.begun, () => `update ${n} of ${c.name} is handled when it is ${c.begun}'s turn`, "updates are handled in another order");
            check(plain(u) === plain(update(c, n)), "an update is changed on its way");
            c.begun = n + 1;
            ctl.note(`${c.name} handles update ${n}`);
            if (cfg.slowHandlers) {
              const how = ctl.pick(["at once", "later", "throws", "asks"], "handler", 1);
              if (how === "later") await new Promise<void>((r) => running.push([`handler of ${n} ends`, r]));
              if (how === "throws") throw new Error("of the application");
              if (how === "asks") ask(c, i);
            }
            await next();
          }));
          c.d.connect();
          await pump();
          check(c.real, "the client in the worker does not connect");
        }
        const update = (c: C, n: number) => ({ type: "deletedMessages", deletedMessages: [{ owner: c.name, messageId: n, chatId: -5, date: n }] });
        const ask = (c: C, i: number) => {
          const call: Call = { tag: `${c.name}${c.n++}`, client: i, state: "sent" };
          calls.push(call);
          ctl.step(`${call.tag} is asked for`);
          c.d.getChat(call.tag).then((v: any) => ended(call, { v }), (e: any) => ended(call, { e }));
        };
        const ended = (c: Call, end: { v?: any; e?: any }) => {
          ctl.note(`${c.tag} ${"v" in end ? "succeeds" : "fails"}`);
          check(!c.end, "a call ends twice");
          c.end = end;
          c.state = "done";
          if (c.broken) return check(end.e === c.broken, () => `a call that was open when the worker failed ends with ${end.e ?? plain(end.v)}`, "a call that was open when the worker failed ends with something else");
          if (c.how === "ok") check(end.v?.tag === c.tag, () => `${c.tag} ends with ${plain(end.v ?? String(end.e))}`, "a call has the result of another one");
          else if (c.how === "fails") check(end.e instanceof errors.InputError && end.e.message === c.tag, () => `${c.tag} ends with ${plain(end.v ?? String(end.e))}`, "a call has the result of another one");
          else check((c.how === "lost" || c.how === "cannot be sent") && end.e, () => `${c.tag} ends although it is still running`, "a call ends although it is running");
        };
        for (let step = 0; step < 200; step++) {
          await settle();
          stubs.checkAll();
          const opts: [string, () => void][] = [];
          if (bus.toWorker.length) opts.push(["to the worker", () => bus.deliverToWorker()]);
          if (bus.toParent.length) opts.push(["to the application", () => bus.deliverToParent()]);
          const first = opts.length;
          cs.forEach((c, i) => {
            if (c.n < cfg.calls) opts.push([`call ${c.name}`, () => ask(c, i)]);
            if (c.emitted < cfg.updates && !c.emitting) {
              opts.push([`update ${c.name}`, () => {
                c.emitting = true;
                const n = c.emitted++;
                ctl.step(`update ${n} of ${c.name}`);
                Composer.prototype.handleUpdate.call(c.real, c.real, update(c, n) as any).finally(() => c.emitting = false);
              }]);
            }
          });
          for (const c of calls) {
            if (!c.finish) continue;
            const f = c.finish;
            for (const how of ["ok", "fails"]) opts.push([`${c.tag} ${how}`, () => (c.finish = undefined, ctl.step(`${c.tag} ${how}`), f(how))]);
          }
          for (const l of [mes, running]) {
            l.forEach((m, k) => opts.push([m[0], () => (l.splice(k, 1), ctl.step(m[0]), m[1]())]));
          }
          if (workerErrors < (cfg.worker ?? 0) && step > 0) {
            for (const kind of ["error", "messageerror"]) {
              opts.push([kind, () => {
                workerErrors++;
                ctl.step(`the worker fails: ${kind}`);
                const error = new Error("worker");
                for (const c of calls) {
                  if (c.state === "done") continue;
                  // which error it is after a message that could not be read is left open
                  if (kind === "error") c.broken = error;
                  else c.how = "lost";
                }
                bus.emit(kind, kind === "error" ? new ErrorEvent("error", { error, message: "m" }) : new MessageEvent("messageerror"));
              }]);
            }
          }
          if (!opts.length) break;
          const k = ctl.choose(opts.length, opts.map((o) => o[0]).join(), 1);
          if (k < first) ctl.step(opts[k][0]);
          const before = calls.filter((c) => c.state !== "done");
          const name = opts[k][0];
          opts[k][1]();
          if (name === "error" || name === "messageerror") {
            await settle();
            const open = before.find((c) => c.state !== "done");
            check(!open, () => `${open!.tag} stays open although the worker failed`, "a call stays open although the worker failed");
          }
        }
        await settle();
        const open = calls.find((c) => !c.end);
        check(!open, () => `${open!.tag} never ends`, "a call never ends");
        if (!workerErrors) for (const c of cs) check(c.begun === c.emitted, () => `${c.begun} of ${c.emitted} updates of ${c.name} are handled`, "an update is lost");
        if (cfg.reinit) {
          // the client is gone after disconnecting, and another one can take its place
          const c = cs[0];
          const p = c.d.disconnect();
          await pump();
          await p;
          let e: any, ok: any;
          c.d.getChat("x").then(() => e = 1, (x: any) => e = x);
          await pump();
          check(e instanceof errors.InputError, () => `a call after disconnecting ends with ${e}`, "a call without a client does not fail");
          c.real = null;
          c.d.init({ apiId: 1, apiHash: "x" }).then(() => c.d.connect());
          await pump();
          check(c.real, "a client cannot be used again");
          const call: Call = { tag: "again", client: 0, state: "sent" };
          calls.push(call);
          c.d.getChat(call.tag).then((v: any) => (ok = v), () => {});
          await pump();
          call.finish?.("ok");
          await pump();
          check(ok?.tag === "again", "a client that is used again does not answer");
        }
        stubs.checkAll();
        ctl.outcome(ctl.log.join());
      } finally {
        stubs.restore();
      }
    },
  };
}

/** Streams are moved to the worker, what cannot be sent is refused, and a worker without a client says so. */
function odd(): Scenario {
  return {
    name: "streams, values that cannot be sent, no client",
    async run(ctl: Ctl) {
      const bus = new Bus(false);
      bus.auto = true;
      const stubs = new Stubs();
      try {
        const w = new ClientWorker(bus.worker);
        const what = ctl.pick(["stream", "streams in lists", "one stream twice", "cannot be sent", "no client", "client created elsewhere", "failed to start", "begun twice"], "what");
        ctl.step(what);
        let end: any;
        const stream = (n: number) => new ReadableStream({ start: (c) => (c.enqueue(new Uint8Array([n])), c.close()) });
        const read = async (s: any) => {
          check(s instanceof ReadableStream, "a stream arrives as something else");
          const r = await new Response(s).arrayBuffer();
          return new Uint8Array(r)[0];
        };
        if (what === "no client") {
          w.getClient(bus.id("x")).getChat(5 as any).then((v) => end = { v }, (e) => end = { e });
          await settle();
          check(end?.e instanceof errors.InputError, "a call without a client does not fail");
          return;
        }
        if (what === "failed to start" || what === "begun twice") {
          let begins = 0;
          const failing = what === "failed to start" ? ctl.pick(["parameters cannot be sent", "the worker cannot make a client"], "how") : "";
          bus.filter = (m) => {
            if (m.method !== "initClient") return m;
            begins++;
            return failing.startsWith("the worker") && begins === 1 ? { ...m, args: [{ get apiHash() { throw new Error("of the worker"); } }] } : m;
          };
          stubs.set("getChat", () => Promise.resolve({ id: 7 }));
          const outcome = async (p: Promise<unknown>) => {
            end = undefined;
            p.then((v) => end = { v }, (e) => end = { e });
            await settle();
            check(end, "beginning does not end");
            return end;
          };
          const good = { apiId: 1, apiHash: "x" } as any, bad = failing.startsWith("parameters") ? { ...good, appVersion: () => 5 } : good;
          const by = ctl.pick(["createClient", "init"], "by");
          let d: any = by === "init" ? w.getClient(bus.id("a")) : null;
          const begin = async (p: any): Promise<any> => d ? await d.init(p) : d = await w.createClient(bus.id("a"), p);
          if (failing) {
            check((await outcome(begin(bad))).e, "a client begins although it cannot");
            check((await outcome(d ? d.getChat(5) : Promise.reject(1))).e, "a call of a client that did not begin succeeds");
          }
          check("v" in await outcome(begin(good)), () => `a client cannot begin${failing ? " after failing to" : ""}: ${end.e}`, "a client cannot begin");
          if (what === "begun twice") {
            check("v" in await outcome(d.init(good)), () => `beginning again fails: ${end.e}`, "beginning again fails");
            check(begins === 1, "a client is made twice in the worker");
            check((await outcome(new ClientWorker(bus.worker).createClient(bus.id("a"), good))).e instanceof errors.InputError, () => `a client of another part of the application is replaced: ${end.e ?? "no error"}`, "a client is replaced");
          }
          check((await outcome(d.getChat(5))).v?.id === 7, "a call of a client that has begun fails");
          stubs.checkAll();
          return;
        }
        if (what === "client created elsewhere") {
          await w.createClient(bus.id("a"), { apiId: 1, apiHash: "x" } as any);
          const w2 = new ClientWorker(bus.worker);
          const d = w2.getClient(bus.id("a"));
          check(w2.getClient(bus.id("a")) === d, "a client is two");
          stubs.set("getChat", () => Promise.resolve({ id: 7 }));
          d.getChat(5 as any).then((v) => end = { v }, (e) => end = { e });
          await settle();
          check(end?.v?.id === 7, "a client created elsewhere does not answer");
          end = undefined;
          w2.createClient(bus.id("a")).then((v) => end = { v }, (e) => end = { e });
          await settle();
          check(end?.e instanceof errors.InputError, "a client is created twice");
          return;
        }
        const client: any = await w.createClient(bus.id("a"), { apiId: 1, apiHash: "x" } as any);
        let got: any;
        stubs.set("sendDocument", async (...a: any[]) => {
          const s: any[] = what === "stream" ? [a[1]] : what === "streams in lists" ? [a[2].list[0].file, a[2].list[1].file] : [a[1]];
          if (what === "one stream twice") check(a[1] === a[2].thumbnail, "one stream is two");
          got = [];
          for (const x of s) got.push(await read(x));
          return got;
        });
        const one = stream(1);
        const args = what === "stream" ? [5, one, {}] : what === "streams in lists" ? [5, "x", { list: [{ file: one }, { file: stream(2) }] }] : what === "one stream twice" ? [5, one, { thumbnail: one }] : [5, "x", { f: () => {} }];
        client.sendDocument(...args).then((v: any) => end = { v }, (e: any) => end = { e });
        await settle();
        for (let i = 0; i < 50 && !end; i++) await settle();
        if (what === "cannot be sent") {
          check(end?.e, "a call with arguments that cannot be sent does not fail");
          check(!got, "a call with arguments that cannot be sent is made");
        } else check(plain(end?.v) === (what === "streams in lists" ? "[1,2]" : "[1]"), () => `streams: ${plain(end?.v)} ${end?.e}`, "streams do not arrive");
      } finally {
        stubs.restore();
      }
    },
  };
}

/** Signing in, step by step, in this thread and in a worker. */
function signing(): Scenario {
  return {
    name: "signing in",
    budget: 4,
    async run(ctl: Ctl) {
      const method = ctl.pick(["start", "signIn"], "method");
      const who = ctl.pick(["user", "user without names", "strings", "bot"], "who");
      const decisions: string[] = [];
      const log = async (remote: boolean) => {
        const out: string[] = [];
        const stubs = new Stubs();
        let n = 0;
        const decide = (what: string, options: string[]) => {
          // the same in both, as long as they ask for the same
          if (remote) return decisions[n++]?.split(": ")[1] ?? options[0];
          const d = options[ctl.choose(options.length, what)];
          decisions.push(`${what}: ${d}`);
          return d;
        };
        const step = (m: string, options: string[], values: Record<string, unknown> = {}) =>
          stubs.set(m, function (this: any, ...a: any[]) {
            check(this instanceof Client, "a step of signing in is not that of a client");
            while (a.length && a.at(-1) === undefined) a.pop();
            const d = decide(m, options);
            out.push(`${m}(${plain(a)}): ${d}`);
            if (out.length > 40) return Promise.reject(new errors.AccessError("enough"));
            const telegram = (x: string) => errors.constructTelegramError({ _: "rpc_error", error_code: 400, error_message: x } as any, { _: "auth.sendCode" } as any);
            if (d === "not signed in") return Promise.reject(new errors.InputError("Not signed in."));
            if (d === "fails") return Promise.reject(new errors.ConnectionError("lost"));
            if (d.toUpperCase() === d) return Promise.reject(telegram(d));
            return Promise.resolve(values[d] ?? { type: d });
          });
        try {
          step("connect", ["ok", "fails"], { ok: undefined });
          step("getMe", ["not signed in", "ok", "fails"], { ok: { id: 5 } });
          step("checkBotToken", ["signedIn", "ACCESS_TOKEN_INVALID"]);
          step("sendCode", ["ok", "PHONE_NUMBER_INVALID", "PHONE_NUMBER_BANNED", "fails"]);
          step("checkCode", ["passwordRequired", "invalidCode", "signUpRequired", "signedIn", "PHONE_CODE_EXPIRED"]);
          step("getPasswordHint", ["hint", "none", "fails"], { hint: "the hint", none: null });
          step("checkPassword", ["signedIn", "invalidPassword", "fails"]);
          step("signUp", ["ok", "FIRSTNAME_INVALID"], { ok: 7 });
          let client: any;
          const bus = new Bus(false);
          bus.auto = true;
          if (remote) client = await new ClientWorker(bus.worker).createClient(bus.id("a"), { apiId: 1, apiHash: "x" } as any);
          else client = new Client({ apiId: 1, apiHash: "x" } as any);
          const ask = (kind: string) => (...a: any[]) => {
            const i = out.filter((x) => x.startsWith(`asked for the ${kind}`)).length;
            out.push(`asked for the ${kind} ${plain(a)}`);
            return i % 2 ? `${kind}${i}` : Promise.resolve(`${kind}${i}`);
          };
          const params = who === "bot" ? { botToken: "1:x" } : who === "strings" ? { phone: "+1", code: "1", password: "p", firstName: "f", lastName: "" } : { phone: ask("phone"), code: ask("code"), password: ask("password"), ...(who === "user" ? { firstName: ask("first name"), lastName: ask("last name") } : {}) };
          client[method](params).then((v: any) => out.push(`succeeds: ${plain(v)}`), (e: any) => out.push(`fails: ${e?.constructor?.name} ${e?.message}`));
          for (let i = 0; i < 60 && !/^(succeeds|fails)/.test(out.at(-1) ?? ""); i++) await settle();
          app0(W.unhandled);
          if (stubs.violation) throw stubs.violation;
          return out;
        } finally {
          stubs.restore();
        }
      };
      const here = await log(false), there = await log(true);
      for (const l of here) ctl.step(l);
      check(/^(succeeds|fails)/.test(here.at(-1)!), "signing in does not end");
      const i = Array.from({ length: Math.max(here.length, there.length) }, (_, i) => i).find((i) => here[i] !== there[i]);
      check(i === undefined, () => `in a worker: ${there[i!] ?? "nothing"}; in the same thread: ${here[i!] ?? "nothing"}`, "signing in goes another way in a worker");
      ctl.outcome(here.join());
    },
  };
}

/** Handlers are told who the account is, also when it has changed. */
function accounts(): Scenario {
  return {
    name: "another account",
    async run(ctl: Ctl) {
      const bus = new Bus(false);
      bus.auto = true;
      const stubs = new Stubs();
      try {
        let me = 100, real: any;
        stubs.set("connect", function () {
          real = this;
          return Promise.resolve();
        });
        stubs.set("getMe", () => Promise.resolve({ id: me }));
        const fails = ctl.pick([false, true], "fails");
        const how = ctl.pick(["signOut", "importAuthString"], "how");
        // signing out ends the session here even if the server could not be told
        const change = () => {
          if (how === "signOut" || !fails) me++;
          return fails ? Promise.reject(new errors.ConnectionError("lost")) : Promise.resolve();
        };
        stubs.set(how, change);
        const client: any = await new ClientWorker(bus.worker).createClient(bus.id("a"), { apiId: 1, apiHash: "x" } as any);
        const seen: number[] = [];
        client.use((ctx: any) => void seen.push(ctx.me?.id));
        await client.connect();
        const rounds = ctl.pick([1, 2], "rounds");
        for (let i = 0; i <= rounds; i++) {
          for (let k = 0; k < 2; k++) {
            await Composer.prototype.handleUpdate.call(real, real, { type: "deletedMessages", deletedMessages: [] } as any);
            await settle();
            check(seen.pop() === me && !seen.length, () => `after ${i} changes of the account a handler is told another one`, "a handler is told it is somebody else");
          }
          if (i === rounds) break;
          ctl.step(`${how} ${fails ? "fails" : "succeeds"}`);
          let e: any;
          await client[how]("x").catch((x: any) => e = x);
          check(fails === e instanceof errors.ConnectionError, () => `${how} ends with ${e}`);
        }
        stubs.checkAll();
      } finally {
        stubs.restore();
      }
    },
  };
}

const RESULT = (n: number) => ({ _: "help.deepLinkInfo", message: `answer ${n}`, entities: [] });
/** A real client: calls that fail, with handlers, in this thread and in a worker. */
function handlers(count: number, attempts: number): Scenario {
  return {
    name: `failing calls, ${count} handlers, at most ${attempts} attempts`,
    async run(ctl: Ctl) {
      const answers = Array.from({ length: attempts }, (_, i) => ctl.pick(i === attempts - 1 ? ["ok"] : ["ok", "400 PEER_ID_INVALID", "420 FLOOD_WAIT_7", "500 INTERNAL"], `answer ${i}`));
      const last = answers.indexOf("ok");
      const decisions = Array.from({ length: last }, (_, i) => Array.from({ length: count }, (_, h) => ctl.pick(["next", "retry", "fail", "throw"], `attempt ${i} handler ${h}`)));
      const log = async (remote: boolean) => {
        const out: string[] = [];
        const app = new App(ctl, { params: { defaultHandlers: false } });
        await start(app, remote);
        let n = 0;
        app.onRequest = (r) => {
          if (r.q._ !== "help.getDeepLinkInfo") return undefined;
          const a = answers[n++] ?? "ok";
          out.push(`attempt ${n}: ${a}`);
          return a === "ok" ? { result: RESULT(n) } : { error: [Number(a.slice(0, 3)), a.slice(4)] };
        };
        const f = { _: "help.getDeepLinkInfo", path: "x" };
        for (let i = 0; i < count; i++) {
          app.client.invoke.use(async (c: any, next: any) => {
            const d = decisions[n - 1]?.[i];
            out.push(`handler ${i}: ${c.error?.constructor?.name} ${c.error?.errorMessage} n=${c.n} ${plain(c.function)} ${c.client === app.client}: ${d}`);
            if (d === "throw") throw new errors.AccessError(`of handler ${i}`);
            return d === "next" ? await next() : d === "retry";
          });
        }
        app.client.invoke(f).then((v: any) => out.push(`succeeds: ${plain(v)}`), (e: any) => out.push(`fails: ${e?.constructor?.name} ${e?.message}`));
        await settle();
        for (let i = 0; i < 5; i++) await advance(1000), await settle();
        app0(W.unhandled);
        await app.client.disconnect();
        await settle();
        return out;
      };
      const here = await log(false), there = await log(true);
      for (const l of here) ctl.step(l);
      check(here.some((l) => /^(succeeds|fails)/.test(l)), "a call does not end");
      const at = here.findIndex((l, i) => there[i] !== l);
      const i = at < 0 && there.length > here.length ? here.length : at;
      check(i < 0, () => `in a worker: ${there[i] ?? "nothing"}; in the same thread: ${here[i] ?? "nothing"}`, "a failing call goes on in another way in a worker");
      ctl.outcome(here.join());
    },
  };
}
async function start(app: App, remote: boolean, params: any = {}) {
  if (!remote) {
    app.create(params);
    return await app.start();
  }
  const bus = new Bus(false);
  bus.auto = true;
  bus.filter = (m) => m.method === "initClient" ? { ...m, args: [{ ...m.args[0], transportProvider: app.net.provider }] } : m;
  app.client = await new ClientWorker(bus.worker).createClient(bus.id("a"), { apiId: 5, apiHash: "h", appVersion: "1", deviceModel: "d", systemVersion: "1", ...(app.opt.params ?? {}), ...params });
  await app.start();
}

/** Downloads and single chunks, in this thread and in a worker, of sizes around the chunks. */
function downloads(tier: string): Scenario {
  const K = 1024;
  return {
    name: "downloads and chunks",
    async run(ctl: Ctl) {
      const remote = ctl.pick([false, true], "worker");
      const chunk = ctl.pick(tier === "quick" ? [K, 2 * K] : [K, 2 * K, 5 * K], "chunk size");
      const size = ctl.pick([0, 1, K - 1, K, K + 1, 2 * K, 3 * K - 1, 4 * K, 4 * K + 1], "size");
      const again = ctl.pick([chunk, K, 2 * K], "chunk size of the second time");
      const bytes = content(size);
      const app = new App(ctl, { params: { defaultHandlers: false } });
      await start(app, remote);
      app.onRequest = (r) => {
        if (r.q._ !== "upload.getFile") return undefined;
        check(r.q.limit % K === 0 && Number(r.q.offset) % K === 0, "an invalid part is asked for");
        return { result: { _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: bytes.slice(Number(r.q.offset), Number(r.q.offset) + r.q.limit) } };
      };
      const fileId = serializeFileId({ type: FileType.Document, dcId: 2, fileReference: new Uint8Array([1]), location: { type: "common", id: 9n, accessHash: 1n } } as any);
      const wait = async <T>(p: Promise<T>): Promise<T> => {
        let end: any;
        p.then((v) => end = { v }, (e) => end = { e });
        for (let i = 0; i < 40 && !end; i++) {
          await settle();
          if (!end && timers().length) await advance(1000);
        }
        check(end, "a download does not end");
        if (end.e) throw end.e;
        return end.v;
      };
      for (const c of [chunk, again]) {
        for (const offset of [0, K, 2 * K, 5 * K]) {
          const l: Uint8Array[] = [];
          await wait((async () => {
            for await (const x of app.client.download(fileId, { chunkSize: c, offset })) {
              check(x.length > 0, "an empty chunk");
              l.push(x);
            }
          })());
          const all = new Uint8Array(l.reduce((n, x) => n + x.length, 0));
          l.reduce((n, x) => (all.set(x, n), n + x.length), 0);
          check(same(all, bytes.subarray(offset)), () => `a download of ${size} bytes from ${offset} in chunks of ${c} has ${all.length} bytes`, "a download is not the file");
          const one: Uint8Array = await wait(app.client.downloadChunk(fileId, { chunkSize: c, offset }));
          check(same(one, bytes.subarray(offset, offset + c)), () => `the chunk of ${c} bytes from ${offset} of ${size} bytes has ${one.length} bytes`, "a chunk is not that of the file");
        }
      }
      app0(W.unhandled);
      ctl.step(`${size} bytes in chunks of ${chunk}, then ${again}${remote ? " in a worker" : ""}`);
      await app.client.disconnect();
    },
  };
}
void SELF;

export default {
  id: "W01",
  level: "model_checking",
  rule: "The real ClientWorker and the real /repo/worker.ts are joined by first-in-first-out channels. Every method and every error class is tried; calls, answers, updates, handlers, getMe and failures of the worker are interleaved in all ways within the deviation budget; calls that fail are compared, handler by handler, with a client in the same thread.",
  assumptions: ["Messages between the threads are structured clones delivered in order, as the platform guarantees."],
  exhaustive: true,
  scenarios: (tier) => {
    const q = tier === "quick";
    return [
      methods(false),
      ...(q ? [] : [methods(true)]),
      everyError(),
      odd(),
      signing(),
      accounts(),
      schedule("one client, three calls", { clients: 1, calls: 3, updates: 0, budget: q ? 3 : 5 }),
      schedule("two clients, calls and updates", { clients: 2, calls: 1, updates: 2, reinit: true, budget: q ? 2 : 4 }),
      schedule("two clients of a shared worker", { clients: 2, shared: true, calls: 1, updates: 1, reinit: true, budget: q ? 2 : 3 }),
      schedule("updates while it is unknown who the user is", { clients: 1, calls: 0, updates: 4, slowMe: true, budget: q ? 3 : 5 }),
      schedule("slow and failing handlers of updates", { clients: 1, calls: 1, updates: 3, slowHandlers: true, budget: q ? 3 : 4 }),
      schedule("the worker fails", { clients: 2, calls: 2, updates: 1, worker: 2, budget: q ? 2 : 3 }),
      handlers(0, 2),
      handlers(1, q ? 3 : 4),
      handlers(2, q ? 3 : 4),
      downloads(tier),
    ];
  },
} satisfies CheckDef;
