// Executions of two secret chat managers: messages, losses, failures, new keys, crashes.
// deno-lint-ignore-file no-explicit-any
import { check, type Ctl, type Scenario } from "./explore.ts";
import { settle, W } from "./world.ts";
import { fingerprint, type Phone, le2big, poolKeys, SecretWorld, WEEK } from "./secret.ts";

export interface Cfg {
  name: string;
  creator?: 0 | 1;
  /** who sends, in order */
  script: string;
  acts: string[];
  budget: number;
  /** messages exchanged before */
  prelude?: number;
  /** whether a new key must be in use at the end */
  rekey?: boolean;
}

export function secretChat(cfg: Cfg): Scenario {
  const acts = new Set(cfg.acts);
  return {
    name: cfg.name,
    budget: cfg.budget,
    shard: true,
    run: async (ctl: Ctl) => {
      const w = new SecretWorld(ctl);
      let exploring = false;
      let gateOf: (op: string, key: any, phone: Phone) => void = () => {};
      const id = await w.establish(cfg.creator ?? 0, (op, key, phone) => gateOf(op, key, phone));
      let failed = 0;
      const firstKey = [...poolKeys(w.pool).values()].find((k) => fingerprint(k) === w.chats.get(id)!.fp)!;
      let crashes = 0;
      const crashed = new Set<0 | 1>();
      /** texts a crash may bring to the application again */
      const repeatable = [new Set<string>(), new Set<string>()];
      const seen = [0, 0];
      w.onCrash = (phone) => {
        if (phone.storage.dead) return;
        crashes++;
        crashed.add(phone.side);
        ctl.step(`${phone.name} crashes${phone.handling ? ` while handling ${phone.handling.label}` : ""}`);
        phone.storage.dead = true;
      };
      const gate = (op: string, key: any, phone: Phone) => {
        if (op !== "set" || !exploring || !acts.has("crash") || crashes >= 2) return;
        if (ctl.choose(2, `crash of ${phone.name} before writing`)) w.onCrash(phone);
      };
      const restart = async (side: 0 | 1) => {
        const phone = w.phones[side];
        crashed.delete(side);
        const d = phone.handling;
        if (d) for (const r of phone.received.slice(seen[side])) repeatable[side].add(r.text);
        phone.kill();
        for (let i = w.pending.length - 1; i >= 0; i--) if (w.pending[i].phone === phone) w.pending.splice(i, 1);
        for (const s of sent) if (s.side === side && s.state === "running") s.state = "crashed";
        if (d) {
          if (/ Resend$|resent\)$/.test(d.label) || ctl.choose(2, "delivered again", 0) === 0) w.queue[side].unshift(d);
          else ctl.step(`${d.label} is not delivered again`);
        }
        ctl.step(`${phone.name} is started again`);
        await phone.boot(gate);
      };
      w.policy = (phone, q) => {
        if (!exploring || !q._.startsWith("messages.sendEncrypted")) return "now";
        const opts = ["now"];
        if (acts.has("slow")) opts.push("slow");
        if (acts.has("crash") && crashes < 2) opts.push("crash", "crash after");
        if (acts.has("fail") && !w.again(phone, q)) opts.push("refuse", "lost answer");
        const o = opts[ctl.choose(opts.length, `${q._} of ${phone.name}`)] as any;
        if (o === "refuse" || o === "lost answer") failed++;
        return o;
      };
      interface Sent {
        text: string;
        state: "running" | "done" | "failed" | "crashed";
        side: 0 | 1;
        file: boolean;
        after: Set<Sent>;
      }
      const sent: Sent[] = [];
      let n = 0;
      const send = (side: 0 | 1, kind = "text") => {
        const s: Sent = { text: `${side ? "b" : "a"}${n++}`, state: "running", side, file: kind === "file", after: new Set(sent.filter((x) => x.state !== "running")) };
        sent.push(s);
        ctl.step(`${w.phones[side].name} sends ${s.text}`);
        const m = w.phones[side].mgr;
        const p: Promise<void> = kind === "file" ? m.sendSecretDocument(id, "file", { caption: s.text }) : kind === "silent" ? m.sendSecretMessage(id, s.text, { isSilent: true }) : m.sendSecretMessage(id, s.text);
        p.then(() => s.state = "done", (e) => {
          s.state = "failed";
          ctl.note(`sending ${s.text} failed: ${e?.message ?? e}`);
        });
      };
      const give = (side: 0 | 1, i: number) => {
        const [d] = w.queue[side].splice(i, 1);
        ctl.step(`${w.phones[side].name} gets ${d.label}`);
        seen[side] = w.phones[side].received.length;
        w.phones[side].give(d);
      };
      const quiet = ctl.step;
      for (let i = 0; i < (cfg.prelude ?? 0); i++) {
        ctl.step = () => {};
        send((cfg.script[0] ?? "a").toLowerCase() === "b" ? 1 : 0);
        await w.drain();
      }
      ctl.step = quiet;
      gateOf = gate;
      let weeks = 0;
      exploring = true;
      let at = 0;
      for (let i = 0; i < 80; i++) {
        if (crashed.size) {
          await restart([...crashed][0]);
          await settle();
          continue;
        }
        const opts: [string, () => void][] = [];
        const step = cfg.script[at];
        const start = () => (at++, send(step.toLowerCase() === "b" || step === "g" ? 1 : 0, step === "f" || step === "g" ? "file" : step === "A" || step === "B" ? "silent" : "text"));
        for (const s of [0, 1] as const) if (w.queue[s].length && !w.phones[s].busy) opts.push([`give ${s}`, () => give(s, 0)]);
        if (step && !opts.length && !w.pending.length) opts.push(["start", start]);
        if (!opts.length && w.pending.length) opts.push(["answer", () => w.pending[0].go()]);
        if (!opts.length) break;
        if (step && opts[0][0] !== "start") opts.push(["start early", start]);
        if (w.pending.length && opts[0][0] !== "answer") opts.push(["answer", () => w.pending[0].go()]);
        if (w.pending.length > 1) opts.push(["answer #1", () => w.pending[1].go()]);
        if (w.pending.length && acts.has("fail") && !w.pending[0].again) opts.push(["fail", () => (failed++, w.pending[0].fail(false))], ["lose answer", () => (failed++, w.pending[0].fail(true))]);
        if (acts.has("week") && weeks < 2) {
          opts.push(["a week", () => {
            weeks++;
            ctl.step("a week passes");
            W.now += WEEK;
          }]);
        }
        for (const s of [0, 1] as const) {
          const q = w.queue[s];
          if (!q.length) continue;
          if (acts.has("lose") && !/ Resend$|resent\)$/.test(q[0].label)) opts.push([`lose ${s}`, () => (ctl.step(`${q[0].label} is lost`), void q.shift())]);
          if (w.phones[s].busy) continue;
          if (acts.has("reorder") && q.length > 1) opts.push([`give ${s}#1`, () => give(s, 1)]);
          if (acts.has("dup")) opts.push([`dup ${s}`, () => (q.push({ ...q[0] }), give(s, 0))]);
        }
        const [, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())];
        run();
        await settle();
        w.ok();
      }
      exploring = false;
      for (const side of [...crashed]) await restart(side);
      await w.drain();
      const check1 = (final: boolean) => {
        for (const side of [0, 1] as const) {
          const mine = sent.filter((s) => s.side === side);
          const got = w.phones[1 - side].received.map((r) => r.text);
          const must = mine.filter((s) => s.state === "done" || w.log[side].some((p) => p.text === s.text)).map((s) => s.text);
          const all = mine.map((s) => s.text);
          // the order in which they were numbered, which is the order in which they were sent
          const numbered = w.log[side].filter((p) => p.text !== undefined).map((p) => p.text!);
          mine.forEach((t, j) => {
            const s = mine.slice(0, j).find((s) => numbered.indexOf(s.text) > numbered.indexOf(t.text) && numbered.includes(t.text) && (t.after.has(s) || (!s.file && !t.file)));
            check(!s, () => `${s!.text} was numbered after ${t.text}`, "messages were sent out of order");
          });
          for (const g of got) check(all.includes(g), () => `${g} was received and never sent`, "a message was received that was not sent");
          check(got.every((g, i) => !i || repeatable[1 - side].has(g) || numbered.indexOf(got[i - 1]) <= numbered.indexOf(g)), () => `received ${got}, sent ${numbered}`, "messages were received out of order");
          const once = got.filter((g, i) => !repeatable[1 - side].has(g) || got.indexOf(g) === i);
          check(new Set(once).size === once.length, () => `${w.phones[1 - side].name} received ${got}`, "a message was received twice");
          if (final) for (const m of must) check(got.includes(m), () => `${m} is never received: ${got}`, "a message was lost");
        }
        check(!w.discards.length, () => `${w.discards} discarded the chat`, "the chat was discarded");
        check(sent.every((s) => s.state !== "running"), "sending a message never ends");
      };
      check1(false);
      // undisturbed from here on: the next messages bring whatever is missing
      for (let r = 0; r < 2; r++) {
        for (const s of [0, 1] as const) {
          send(s);
          await w.drain();
        }
      }
      check1(true);
      check(sent.slice(-4).every((s) => s.state === "done"), "a message could not be sent");
      check(failed > 0 || crashes > 0 || sent.every((s) => s.state === "done"), "a message was not sent although nothing failed");
      check(!W.unhandled.length, () => `unhandled: ${W.unhandled}`);
      if (cfg.rekey) {
        // whatever happened, a key that is due is replaced, and the old one forgotten
        for (let r = 0; r < 2; r++) {
          for (const s of [0, 1] as const) {
            send(s);
            await w.drain();
          }
        }
        check1(true);
        const last = [0, 1].map((s) => w.log[s].at(-1)!.key);
        check(fingerprint(last[0]) === fingerprint(last[1]), "the two sides use different keys in the end", "the two sides use different keys in the end");
        const due = weeks > 0 || (cfg.prelude ?? 0) > 100;
        const now = fingerprint(last[0]);
        const changed = now !== fingerprint(firstKey);
        check(due || !changed, "the key was replaced too early");
        check(!due || changed, "the key was not replaced in time", "the key was not replaced in time");
        for (const p of w.phones) {
          const kept = changed && secretsIn(p.disk.entries, [...poolKeys(w.pool).values()].filter((k) => fingerprint(k) !== now), w.pool);
          check(!kept, () => `${p.name} keeps ${kept}`, "an old key can be recovered from the storage");
        }
        ctl.count("rekeyed", changed ? 1 : 0);
      }
      ctl.outcome(w.phones.map((p) => p.received.map((r) => r.text).join()).join("/") + w.packets.map((p) => p.from + p.what + p.copies).join());
    },
  };
}

/** Looks for keys and secret exponents in stored values. */
function secretsIn(v: unknown, keys: Uint8Array[], exponents: Uint8Array[], path = ""): string | null {
  if (v instanceof Uint8Array) {
    for (const k of keys) if (k.length === v.length && k.every((x, i) => x === v[i])) return `an old key in ${path}`;
    return null;
  }
  if (typeof v === "bigint") {
    if (v <= 0xFFFFFFFFFFFFFFFFn) return null;
    for (const e of exponents) if (le2big(e) === v) return `an old secret exponent in ${path}`;
    return null;
  }
  if (typeof v === "object" && v !== null) {
    for (const [k, x] of Object.entries(v)) {
      const r = secretsIn(x, keys, exponents, `${path}.${k}`);
      if (r) return r;
    }
  }
  return null;
}
