// Deterministic world: owns every source of nondeterminism the code under test can
// reach - clock, timers, randomness, digests - so that one list of choices fixes one
// execution. Import this module before any module of /repo.
import { Buffer } from "node:buffer";
import { createCipheriv, createHash, createHmac, pbkdf2Sync } from "node:crypto";
import { setImmediate as realSetImmediate } from "node:timers";

const RealDate = Date;
const realSetTimeout = globalThis.setTimeout;
const realClearTimeout = globalThis.clearTimeout;
const realNow = performance.now.bind(performance);
export { realClearTimeout, RealDate, realNow, realSetTimeout };

const BASE_MS = RealDate.UTC(2026, 0, 15, 12, 0, 0);

export interface Timer {
  id: number;
  at: number;
  seq: number;
  interval: number | null;
  fn: () => void;
}

class WorldState {
  now = BASE_MS;
  timers = new Map<number, Timer>();
  nextTimer = 1;
  seq = 0;
  rng = 0x2545F491;
  // digest interception: when set, returned promise is what the caller gets
  digestGate: ((result: ArrayBuffer, data: Uint8Array) => Promise<ArrayBuffer>) | null = null;
  randomHook: ((bytes: Uint8Array) => void) | null = null;
  unhandled: unknown[] = [];
}

export let W: WorldState = new WorldState();

export function resetWorld(seed = 0x2545F491) {
  W = new WorldState();
  W.rng = seed >>> 0 || 1;
}

// xorshift32
function nextByte() {
  let x = W.rng;
  x ^= x << 13;
  x >>>= 0;
  x ^= x >>> 17;
  x ^= x << 5;
  x >>>= 0;
  W.rng = x;
  return (x >>> 11) & 0xFF;
}

class FakeDate extends RealDate {
  // deno-lint-ignore no-explicit-any
  constructor(...args: any[]) {
    if (args.length === 0) {
      super(W.now);
    } else {
      // @ts-ignore: forwarding
      super(...args);
    }
  }
  static override now() {
    return W.now;
  }
  static [Symbol.hasInstance](v: unknown) {
    return typeof v === "object" && v !== null && RealDate.prototype.isPrototypeOf(v);
  }
}

/** results of slow key derivations, which executions repeat */
const derived = new Map<string, Uint8Array>();
// deno-lint-ignore no-explicit-any
const view = (d: any) => d instanceof ArrayBuffer ? new Uint8Array(d) : new Uint8Array(d.buffer, d.byteOffset, d.byteLength);
let installed = false;
export function install() {
  if (installed) return;
  installed = true;
  // deno-lint-ignore no-explicit-any
  const g = globalThis as any;
  g.Date = FakeDate;
  // deno-lint-ignore no-explicit-any
  g.setTimeout = (fn: any, ms?: number, ...args: any[]) => addTimer(() => fn(...args), ms, null);
  // deno-lint-ignore no-explicit-any
  g.setInterval = (fn: any, ms?: number, ...args: any[]) => addTimer(() => fn(...args), ms, Math.max(1, Number(ms) || 0));
  g.clearTimeout = g.clearInterval = (id?: number) => {
    if (id !== undefined) W.timers.delete(id);
  };
  performance.now = () => W.now - BASE_MS;
  Math.random = () => (nextByte() * 65536 + nextByte() * 256 + nextByte()) / 16777216;
  const rc = crypto;
  const getRandomValues = (a: ArrayBufferView) => {
    const u = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
    if (W.randomHook) W.randomHook(u);
    else for (let i = 0; i < u.length; i++) u[i] = nextByte();
    return a;
  };
  Object.defineProperty(rc, "getRandomValues", { value: getRandomValues, configurable: true, writable: true });
  Object.defineProperty(rc, "randomUUID", {
    value: () => {
      const b = new Uint8Array(16);
      getRandomValues(b);
      const h = Buffer.from(b).toString("hex");
      return `${h.slice(0, 8)}-${h.slice(8, 12)}-4${h.slice(13, 16)}-8${h.slice(17, 20)}-${h.slice(20)}`;
    },
    configurable: true,
    writable: true,
  });
  const names: Record<string, string> = { "SHA-1": "sha1", "SHA-256": "sha256", "SHA-512": "sha512", "MD5": "md5" };
  const subtle = rc.subtle;
  const origDigest = subtle.digest.bind(subtle);
  Object.defineProperty(subtle, "digest", {
    // deno-lint-ignore no-explicit-any
    value: (alg: any, data: any) => {
      const name = names[(typeof alg === "string" ? alg : alg.name).toUpperCase()];
      if (!name) return origDigest(alg, data);
      const u = data instanceof ArrayBuffer ? new Uint8Array(data) : new Uint8Array(data.buffer, data.byteOffset, data.byteLength);
      const out = new Uint8Array(createHash(name).update(u).digest()).buffer;
      return W.digestGate ? W.digestGate(out, u) : Promise.resolve(out);
    },
    configurable: true,
    writable: true,
  });
  // PBKDF2 through WebCrypto runs on a native thread; keep it, but synchronously.
  Object.defineProperty(subtle, "importKey", {
    value: ((orig) => (...args: unknown[]) => {
      if (args[0] === "raw" && (args[2] === "PBKDF2" || (args[2] as { name?: string })?.name === "PBKDF2")) {
        return Promise.resolve({ __raw: new Uint8Array(args[1] as Uint8Array) });
      }
      const alg = (args[2] as { name?: string })?.name ?? args[2];
      if (args[0] === "raw" && (alg === "HMAC" || alg === "AES-CTR")) {
        // deno-lint-ignore no-explicit-any
        return Promise.resolve({ __raw: new Uint8Array(args[1] as Uint8Array), __hash: String((args[2] as any).hash?.name ?? (args[2] as any).hash ?? "").replace("-", "").toLowerCase() });
      }
      // deno-lint-ignore no-explicit-any
      return (orig as any)(...args);
    })(subtle.importKey.bind(subtle)),
    configurable: true,
    writable: true,
  });
  Object.defineProperty(subtle, "deriveBits", {
    // deno-lint-ignore no-explicit-any
    value: ((orig) => (alg: any, key: any, bits: number) => {
      if (key && key.__raw) {
        const name = String(alg.hash.name ?? alg.hash).replace("-", "").toLowerCase();
        const id = [Buffer.from(key.__raw).toString("hex"), Buffer.from(view(alg.salt)).toString("hex"), alg.iterations, bits, name].join();
        let out = derived.get(id);
        if (!out) derived.set(id, out = pbkdf2Sync(key.__raw, view(alg.salt), alg.iterations, bits / 8, name));
        return Promise.resolve(new Uint8Array(out).buffer);
      }
      // deno-lint-ignore no-explicit-any
      return (orig as any)(alg, key, bits);
    })(subtle.deriveBits.bind(subtle)),
    configurable: true,
    writable: true,
  });
  Object.defineProperty(subtle, "sign", {
    // deno-lint-ignore no-explicit-any
    value: ((orig) => (alg: any, key: any, data: any) => {
      if (key && key.__raw) return Promise.resolve(new Uint8Array(createHmac(key.__hash, key.__raw).update(view(data)).digest()).buffer);
      // deno-lint-ignore no-explicit-any
      return (orig as any)(alg, key, data);
    })(subtle.sign.bind(subtle)),
    configurable: true,
    writable: true,
  });
  for (const name of ["encrypt", "decrypt"] as const) {
    Object.defineProperty(subtle, name, {
      // deno-lint-ignore no-explicit-any
      value: ((orig) => (alg: any, key: any, data: any) => {
        if (key && key.__raw && alg.name === "AES-CTR") {
          const c = createCipheriv(`aes-${key.__raw.length * 8}-ctr`, key.__raw, view(alg.counter));
          return Promise.resolve(new Uint8Array(c.update(view(data))).buffer);
        }
        // deno-lint-ignore no-explicit-any
        return (orig as any)(alg, key, data);
      })(subtle[name].bind(subtle)),
      configurable: true,
      writable: true,
    });
  }
  globalThis.addEventListener("unhandledrejection", (e) => {
    e.preventDefault();
    W.unhandled.push(e.reason);
  });
  globalThis.addEventListener("error", (e) => {
    e.preventDefault();
    W.unhandled.push(e.error ?? e.message);
  });
}

function addTimer(fn: () => void, ms: number | undefined, interval: number | null): number {
  const id = W.nextTimer++;
  const d = Number(ms);
  W.timers.set(id, { id, at: W.now + (d > 0 ? d : 0), seq: W.seq++, interval, fn });
  return id;
}

/** Timers sorted by due time, then creation. */
export function timers(): Timer[] {
  return [...W.timers.values()].sort((a, b) => a.at - b.at || a.seq - b.seq);
}

export function fireTimer(t: Timer) {
  if (!W.timers.has(t.id)) return;
  if (t.at > W.now) W.now = t.at;
  if (t.interval === null) W.timers.delete(t.id);
  else t.at = W.now + t.interval, t.seq = W.seq++;
  t.fn();
}

/** Let every microtask (and everything it enqueues) run. One real macrotask turn drains the microtask queue. */
export const activity = { n: 0 };
export function turn(): Promise<void> {
  activity.n++;
  return new Promise((r) => realSetImmediate(r));
}

/** Run microtasks, and timers due within `zeroMs` of now, until nothing is runnable. */
export async function settle(zeroMs = 0) {
  await turn();
  for (let n = 0;; n++) {
    const due = timers().filter((t) => t.at <= W.now + zeroMs);
    if (!due.length) return;
    if (n > 20000) throw new Error("settle: timers do not quiesce");
    fireTimer(due[0]);
    await turn();
  }
}

/** Advance the clock by ms, firing timers in order. */
export async function advance(ms: number) {
  const end = W.now + ms;
  await turn();
  for (let n = 0;; n++) {
    const t = timers()[0];
    if (!t || t.at > end) break;
    if (n > 20000) throw new Error("advance: timers do not quiesce");
    fireTimer(t);
    await turn();
  }
  W.now = Math.max(W.now, end);
  await turn();
}

install();
