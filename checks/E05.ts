// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { settle, W } from "../lib/world.ts";
import { fingerprint, le2big, POOL, SecretWorld } from "../lib/secret.ts";
import { be, modPow, PRIME } from "../lib/handshake.ts";

interface Cfg {
  name: string;
  acts: string[];
  budget: number;
  creator?: 0 | 1;
}

function races(cfg: Cfg): Scenario {
  const acts = new Set(cfg.acts);
  return {
    name: cfg.name,
    budget: cfg.budget,
    shard: true,
    run: async (ctl: Ctl) => {
      const w = new SecretWorld(ctl);
      const creator = cfg.creator ?? 0;
      for (const p of w.phones) await p.boot();
      const a = w.phones[creator], b = w.phones[1 - creator];
      let exploring = true;
      let failed = 0;
      w.policy = (_p, q) => {
        if (!exploring) return "now";
        const opts = ["now"];
        if (acts.has("slow")) opts.push("slow", "slow answer");
        if (acts.has("fail") && !/acceptEncryption|requestEncryption/.test(q._)) opts.push("refuse");
        if (acts.has("fail") && /acceptEncryption|requestEncryption/.test(q._)) opts.push("refuse");
        const o = opts[ctl.choose(opts.length, q._)] as any;
        if (o === "refuse") failed++;
        return o;
      };
      let chatId: number | null = null;
      const running = new Set<string>();
      const results: string[] = [];
      const op = (name: string, p: Promise<any>) => {
        ctl.step(name);
        running.add(name);
        p.then((v) => {
          running.delete(name);
          results.push(`${name}: ok`);
          if (v?.id !== undefined) chatId = v.id;
        }, (e) => {
          running.delete(name);
          results.push(`${name}: ${e?.message}`);
          ctl.note(`${name} failed: ${e?.message}`);
        });
      };
      const known = (p: typeof a) => p.secretChats.at(-1)?.id as number | undefined;
      let requested = 0, accepted = 0, ends = 0;
      const give = (side: 0 | 1, i: number) => {
        const [d] = w.queue[side].splice(i, 1);
        ctl.step(`${w.phones[side].name} gets ${d.label}`);
        w.phones[side].give(d);
      };
      const delivered: [any[], any[]] = [[], []];
      for (let i = 0; i < 40; i++) {
        const opts: [string, () => void][] = [];
        for (const s of [0, 1] as const) if (w.queue[s].length && !w.phones[s].busy) opts.push([`give ${s}`, () => (delivered[s].push(w.queue[s][0]), give(s, 0))]);
        const req = () => (requested++, op("request", a.mgr.requestSecretChat(b.selfId)));
        const bid = known(b);
        const acc = () => (accepted++, op(`accept #${accepted}`, b.mgr.acceptSecretChat(bid)));
        if (!requested) opts.push(["request", req]);
        else if (bid !== undefined && !accepted) opts.push(["accept", acc]);
        if (!opts.length && w.pending.length) opts.push(["answer", () => w.pending[0].go()]);
        if (!opts.length) {
          if (acts.has("end") && ends === 0 && bid !== undefined) opts.push(["nothing", () => ends++], ["A ends", () => (ends++, op("A ends", a.mgr.endSecretChat(chatId ?? bid)))], ["B ends", () => (ends++, op("B ends", b.mgr.endSecretChat(bid)))]);
          else break;
        } else {
          if (w.pending.length && opts[0][0] !== "answer") opts.push(["answer", () => w.pending[0].go()]);
          if (w.pending.length > 1) opts.push(["answer #1", () => w.pending[1].go()]);
          if (acts.has("twice") && accepted === 1 && bid !== undefined) opts.push(["accept", acc]);
          if (acts.has("end") && ends < 2 && bid !== undefined) opts.push(["A ends", () => (ends++, op("A ends", a.mgr.endSecretChat(bid)))], ["B ends", () => (ends++, op("B ends", b.mgr.endSecretChat(bid)))]);
        }
        if (acts.has("dup")) {
          for (const s of [0, 1] as const) if (delivered[s].length && !w.phones[s].busy && w.queue[s].length < 3) opts.push([`dup ${s}`, () => w.queue[s].push({ ...delivered[s].at(-1)!, label: delivered[s].at(-1)!.label + " again" })], [`dup first ${s}`, () => w.queue[s].push({ ...delivered[s][0], label: delivered[s][0].label + " again" })]);
        }
        const [, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())];
        run();
        await settle();
        w.ok();
      }
      exploring = false;
      for (const e of w.pending.slice()) e.go(), await settle();
      await w.drain();
      check(!running.size, () => `${[...running]} never ends`);
      const chat = [...w.chats.values()].at(-1);
      if (!chat) {
        check(failed > 0, "no chat was requested");
        ctl.outcome(results.join());
        return;
      }
      chatId = chat.id;
      // a refused request may be repeated
      if (chat.state === "requested") {
        check(failed > 0, () => `the chat was never accepted: ${results}`, "the chat was never accepted");
        op("accept at last", b.mgr.acceptSecretChat(chatId));
        await w.drain();
        check(results.at(-1) === "accept at last: ok", () => results.at(-1)!, "accepting again failed");
      }
      const texts = [0, 0];
      for (const s of [0, 1, 0, 1] as const) {
        const p = w.phones[s], q = w.phones[1 - s];
        const before = q.received.length;
        let error: any = null;
        await p.mgr.sendSecretMessage(chatId, `t${texts[s]++}`).catch((e: any) => error = e);
        await w.drain();
        if ((chat.state as string) === "discarded") {
          check(error !== null, () => `${p.name} could send a message after the chat ended: ${results}`, "a message could be sent after the chat ended");
          check(q.received.length === before, "a message was received after the chat ended");
        } else {
          check(error === null, () => `${p.name} could not send a message: ${error?.message} ${results} ${w.failures}`, "a message could not be sent in an accepted chat");
          check(q.received.length === before + 1 && q.received.at(-1)!.text === `t${texts[s] - 1}`, () => `${q.name} does not receive a message: ${w.failures}`, "a message was not received in an accepted chat");
        }
      }
      if ((chat.state as string) === "discarded") {
        check(ends > 0, () => `the chat was discarded by ${w.discards}: ${w.failures}`, "an honest chat was discarded");
        for (const p of w.phones) check(!p.disk.entries.some(([k, v]: any) => k.includes(chatId!) && (v.authKey.length > 0 || v.pendingExponent || v.a)), () => `${p.name} keeps the ended chat: ${results}`, "an ended chat is kept in the storage");
      } else {
        const keys = [0, 1].map((s) => fingerprint(w.log[s].at(-1)!.key));
        check(keys[0] === keys[1] && keys[0] === chat.fp, "the keys differ");
        // and it survives a restart
        for (const s of [0, 1] as const) {
          w.phones[s].kill();
          await w.phones[s].boot();
        }
        for (const s of [0, 1] as const) {
          await w.phones[s].mgr.sendSecretMessage(chatId, "after restart");
          await w.drain();
          check(w.phones[1 - s].received.at(-1)?.text === "after restart", () => `not received after a restart: ${w.failures}`, "the chat is lost in a restart");
        }
      }
      check(!W.unhandled.length, () => `unhandled: ${W.unhandled}`);
      ctl.outcome(results.join() + w.discards);
    },
  };
}

/** Exponents that make keys and powers of unusual shapes. */
let shapes: [string, Uint8Array[]][] | null = null;
function unusual(): [string, Uint8Array[]][] {
  if (shapes) return shapes;
  const le = (n: bigint) => {
    const b = new Uint8Array(256);
    for (let i = 0; i < 256; i++, n >>= 8n) b[i] = Number(n & 255n);
    return b;
  };
  const a = le2big(POOL[0]);
  const gA = modPow(3n, a, PRIME);
  const find = (ok: (key: Uint8Array, g: Uint8Array) => boolean) => {
    let b = le2big(POOL[1]);
    let key = modPow(gA, b, PRIME), g = modPow(3n, b, PRIME);
    for (let i = 0; i < 200000; i++) {
      if (ok(be(key, 256), be(g, 256))) return le(b);
      b++;
      key = key * gA % PRIME;
      g = g * 3n % PRIME;
    }
    throw new Error("harness: no such number");
  };
  const fp = (k: Uint8Array) => fingerprint(k);
  return shapes = [
    ["a key beginning with a zero byte", [POOL[0], find((k) => k[0] === 0)]],
    ["a key beginning with two zero bytes", [POOL[0], find((k) => k[0] === 0 && k[1] === 0)]],
    ["g_b beginning with a zero byte", [POOL[0], find((_k, g) => g[0] === 0)]],
    ["g_a beginning with a zero byte", [find((_k, g) => g[0] === 0), POOL[0]]],
    ["a negative fingerprint", [POOL[0], find((k) => fp(k) < 0n)]],
    ["a positive fingerprint", [POOL[0], find((k) => fp(k) > 0n)]],
    ["a fingerprint ending with a zero byte", [POOL[0], find((k) => (fp(k) >> 56n) === 0n)]],
    ["a fingerprint beginning with a zero byte", [POOL[0], find((k) => (fp(k) & 255n) === 0n)]],
    ["exponents of zero and one first", [le(0n), le(1n), POOL[0], le(0n), POOL[1]]],
    ["exponents giving g_a and g_b near the prime", [le(PRIME - 1n), le((PRIME - 1n) / 2n), POOL[2], le(PRIME - 1n), POOL[3]]],
    ["equal exponents", [POOL[4], POOL[4]]],
    ["the greatest exponents", [new Uint8Array(256).fill(255), POOL[5]]],
  ];
}
function numbers(creator: 0 | 1): Scenario {
  return {
    name: `unusual numbers (${creator})`,
    run: async (ctl: Ctl) => {
      const l = unusual();
      const i = ctl.free(l.length + 2, "shape");
      const g = [4, 7][i - l.length];
      const [label, pool] = l[i] ?? [`g of ${g}`, undefined];
      const w = pool ? new SecretWorld(ctl, pool) : new SecretWorld(ctl);
      if (g) w.g = g;
      ctl.step(label);
      const id = await w.establish(creator);
      for (const s of [0, 1, 0] as const) {
        await w.phones[s].mgr.sendSecretMessage(id, "x");
        await w.drain();
        check(w.phones[1 - s].received.length === w.log[s].length, () => `${label}: not received: ${w.failures}`, `${label}: the chat does not work`);
      }
      const chat = w.chats.get(id)!;
      for (const g of [chat.gA, chat.gB!]) {
        let v = 0n;
        for (const x of g) v = (v << 8n) | BigInt(x);
        check(v >= 1n << 1983n && v <= PRIME - (1n << 1983n), () => `${label}: an unsafe power was sent`);
      }
      // and after a restart
      for (const p of w.phones) p.kill(), await p.boot();
      await w.phones[1].mgr.sendSecretMessage(id, "y");
      await w.drain();
      check(w.phones[0].received.at(-1)!.text === "y", () => `${label}: not received after a restart`);
      ctl.outcome(label);
    },
  };
}

/** A server that deceives the clients while they agree on a key. */
function deceit(creator: 0 | 1): Scenario {
  const bad: [string, bigint][] = [["0", 0n], ["1", 1n], ["2", 2n], ["2^1900", 1n << 1900n], ["p-1", PRIME - 1n], ["p", PRIME], ["p+5", PRIME + 5n], ["p-2^1900", PRIME - (1n << 1900n)], ["2^2048-1", (1n << 2048n) - 1n]];
  return {
    name: `a deceitful server (${creator})`,
    run: async (ctl: Ctl) => {
      const w = new SecretWorld(ctl);
      for (const p of w.phones) await p.boot();
      const a = w.phones[creator], b = w.phones[1 - creator];
      const what = ctl.free(5, "what");
      const serve = w.serve.bind(w);
      let label = "";
      const bytes = (v: bigint) => be(v, 256);
      if (what === 0) {
        const l: [string, any][] = [
          ["g of 0", { g: 0 }],
          ["g of 1", { g: 1 }],
          ["g of 8", { g: 8 }],
          ["g of 5 (not a residue)", { g: 5 }],
          ["g of 6 (not a residue)", { g: 6 }],
          ["g of 2 (not a residue)", { g: 2 }],
          ["a short prime", { p: bytes(PRIME).slice(1) }],
          ["an altered prime", { p: bytes(PRIME + 2n) }],
          ["an even prime", { p: bytes(PRIME - 1n) }],
          ["a composite prime", { p: bytes((1n << 2047n) + 1n) }],
          ["a prime of 0", { p: new Uint8Array(256) }],
          ["no prime", { p: new Uint8Array() }],
        ];
        const [n, over] = l[ctl.free(l.length, "config")];
        const who = ctl.free(2, "whom");
        label = `${n} to ${who ? "the requested" : "the requesting"} party`;
        w.serve = (p: any, q: any) => q._ === "messages.getDhConfig" && p === (who ? b : a) ? { ...serve(p, q), ...over } : serve(p, q);
        if (!who) {
          let error: any = null;
          await a.mgr.requestSecretChat(b.selfId).catch((e: any) => error = e);
          check(error && !w.chats.size, () => `${label}: accepted`, `${label}: accepted`);
          ctl.outcome(label);
          return;
        }
      }
      ctl.step("request");
      const chat = await a.mgr.requestSecretChat(b.selfId);
      const c = w.chats.get(chat.id)!;
      if (what === 1) {
        const i = ctl.free(bad.length + 1, "g_a");
        label = `g_a of ${i < bad.length ? bad[i][0] : "someone else"}`;
        const g = i < bad.length ? be(bad[i][1], 256) : be(modPow(3n, 987654321987654321n ** 30n, PRIME), 256);
        w.deceived = true;
        for (const d of w.queue[1 - creator]) if (d.update.chat?.g_a) d.update.chat.g_a = g;
        await w.drain();
        let error: any = null;
        await b.mgr.acceptSecretChat(chat.id).catch((e: any) => error = e);
        await w.drain();
        if (i < bad.length) {
          check(error && c.state !== "accepted", () => `${label} was accepted`, "an unsafe g_a was accepted");
          check(!b.disk.entries.some(([, v]: any) => v.authKey?.length), () => `${label}: a key was stored`);
        } else {
          // the other side notices
          check(w.discards.length > 0, "keys that differ were not noticed");
        }
      } else {
        await w.drain();
        const acceptance = b.mgr.acceptSecretChat(chat.id);
        if (what === 0) {
          let error: any = null;
          await acceptance.catch((e: any) => error = e);
          check(error && c.state !== "accepted", () => `${label}: accepted`, `${label}: accepted`);
          ctl.outcome(label);
          return;
        }
        await acceptance;
        const d = w.queue[creator].find((x) => x.update.chat?.g_a_or_b)!;
        if (what === 2) {
          const i = ctl.free(bad.length + 1, "g_b");
          label = `g_b of ${i < bad.length ? bad[i][0] : "someone else"}`;
          const g = i < bad.length ? bad[i][1] : modPow(3n, 987654321987654321n ** 30n, PRIME);
          d.update.chat.g_a_or_b = be(g, 256);
          // with the fingerprint of the key it makes
          if (i < bad.length) d.update.chat.key_fingerprint = fingerprint(be(modPow(bad[i][1], le2big(POOL[0]), PRIME), 256));
        } else if (what === 3) {
          const i = ctl.free(4, "fingerprint");
          d.update.chat.key_fingerprint = [0n, -1n, c.fp! ^ 1n, -c.fp!][i];
          label = `fingerprint #${i}`;
        } else {
          const i = ctl.free(32, "byte") * 8;
          d.update.chat.g_a_or_b = d.update.chat.g_a_or_b.slice();
          d.update.chat.g_a_or_b[i] ^= 1;
          label = `g_b altered in byte ${i}`;
        }
        await w.drain();
        check(w.discards.length > 0, () => `${label} was not noticed`, "a wrong g_b or fingerprint was not noticed");
      }
      // neither side believes in the chat
      let sent = false;
      await a.mgr.sendSecretMessage(chat.id, "secret").then(() => sent = true, () => {});
      await settle();
      check(!sent && !w.packets.some((p) => p.from === creator), () => `${label}: a message was sent`, "a message was sent with a key that was tampered with");
      ctl.outcome(label);
      ctl.count("cases");
    },
  };
}

export default {
  id: "E05",
  level: "model_checking",
  rule: "every order of requests, answers, updates, repetitions, refusals and endings within the deviation budget; every listed unusual number and deceit of the server",
  assumptions: ["the answer to accepting or requesting a chat is not lost for good", "secret exponents are drawn from a pool"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const list: Scenario[] = [];
    for (const creator of [0, 1] as const) {
      const c = (name: string, acts: string, budget: number): Scenario => races({ name: (creator ? "B's chat: " : "") + name, acts: acts.split(" "), budget: budget + d, creator });
      list.push(
        c("slow answers", "slow", 4),
        c("accepted twice", "slow twice", 4),
        c("refused requests", "fail twice", 3),
        c("repeated updates", "dup slow", 3),
        c("ended", "slow end dup", 3),
        numbers(creator),
        deceit(creator),
      );
    }
    return list;
  },
} satisfies CheckDef;
