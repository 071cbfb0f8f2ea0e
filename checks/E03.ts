// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { settle, W } from "../lib/world.ts";
import { codec, fingerprint, poolKeys, seal, SecretWorld, WEEK } from "../lib/secret.ts";
import { cat, testKey } from "../lib/mt.ts";

type Inject = (w: SecretWorld, key: Uint8Array, ctl: Ctl, id: number, to: 0 | 1) => { bytes: Uint8Array; label: string; discards?: boolean };

const layerOf = (w: SecretWorld, to: 0 | 1, over: any = {}, text = "forged") => {
  // the next message the other side could send to `to`
  const from = (1 - to) as 0 | 1;
  const creator = from === [...w.chats.values()][0].creator;
  const sent = w.log[from].length, got = w.log[to].length;
  return { _: "decryptedMessageLayer", random_bytes: new Uint8Array(15).fill(9), layer: 144, in_seq_no: 2 * got + (creator ? 0 : 1), out_seq_no: 2 * sent + (creator ? 1 : 0), message: { _: "decryptedMessage", random_id: 77n, ttl: 0, message: text }, ...over };
};

function forgery(name: string, creator: 0 | 1, inject: Inject, rekeyed = false): Scenario {
  return {
    name: `${creator ? "B's chat: " : ""}${name}`,
    shard: false,
    run: async (ctl: Ctl) => {
      const w = new SecretWorld(ctl);
      const id = await w.establish(creator);
      const send = async (side: 0 | 1, text: string, drain = true) => {
        ctl.step(`${w.phones[side].name} sends ${text}`);
        await w.phones[side].mgr.sendSecretMessage(id, text);
        if (drain) await w.drain();
      };
      await send(0, "one");
      await send(1, "two");
      const expected: string[][] = [["two"], ["one"]];
      if (rekeyed) {
        W.now += WEEK;
        for (const t of ["three", "five", "seven"]) {
          await send(0, t);
          await send(1, t);
          expected[0].push(t), expected[1].push(t);
        }
      }
      const firstKey = [...poolKeys(w.pool).values()].find((k) => fingerprint(k) === w.chats.get(id)!.fp)!;
      const to = ctl.free(2, "to") as 0 | 1;
      const sentBefore = w.packets.length;
      const { bytes, label, discards } = inject(w, firstKey, ctl, id, to);
      ctl.step(`${w.phones[to].name} gets ${label}`);
      const message = ctl.free(2, "service") ? { _: "encryptedMessageService", random_id: 5n, chat_id: id, date: 5, bytes } : { _: "encryptedMessage", random_id: 5n, chat_id: id, date: 5, bytes, file: { _: "encryptedFileEmpty" } };
      w.phones[to].give({ p: null, update: { _: "updateNewEncryptedMessage", message, qts: 0 }, label });
      await settle();
      w.ok();
      check(!w.phones[to].busy, () => `${label}: never handled`);
      const got = w.phones[to].received.map((r) => r.text);
      check(got.join() === expected[to].join(), () => `${label}: received ${got}`, "a forged message was delivered");
      if (discards) {
        check(w.discards.length, () => `${label} was tolerated`, "an invalid message was tolerated");
        ctl.outcome("discarded " + label);
        return;
      }
      check(!w.discards.length, () => `${label}: the chat was discarded`, "a forged message ended the chat");
      check(w.packets.length === sentBefore, () => `${label} was answered: ${w.packets.at(-1)!.what}`, "a forged message was answered");
      for (const s of [0, 1, 0, 1] as const) {
        await send(s, `later${s}`);
        expected[1 - s].push(`later${s}`);
      }
      for (const s of [0, 1]) check(w.phones[s].received.map((r) => r.text).join() === expected[s].join(), () => `after ${label} ${w.phones[s].name} received ${w.phones[s].received.map((r) => r.text)}`, "a forged message broke the chat");
      check(!w.discards.length, () => `${label}: the chat was discarded`, "a forged message ended the chat");
      check(!W.unhandled.length, () => `unhandled: ${W.unhandled}`);
      ctl.outcome(label);
      ctl.count("cases");
    },
  };
}

const sealed = (w: SecretWorld, key: Uint8Array, to: 0 | 1, layer: any, extra: any = {}) => seal(key, (1 - to) === [...w.chats.values()][0].creator, layer, extra);

export default {
  id: "E03",
  level: "fault_enumeration",
  rule: "every forgery of the listed families (each altered byte, truncations and extensions, exchanged blocks, wrong keys, directions, paddings, lengths, numbers, layers, other chats) against both sides",
  assumptions: ["the forger does not know the key, except for the forgeries of the cryptographic envelope that only the peer could make"],
  exhaustive: true,
  scenarios() {
    const list: Scenario[] = [];
    for (const creator of [0, 1] as const) {
      const f = (name: string, inject: Inject, rekeyed = false) => list.push(forgery(name, creator, inject, rekeyed));
      for (const bit of [0x01, 0x80, 0xFF]) {
        f(`bytes altered (${bit})`, (w, key, ctl, _id, to) => {
          const b = sealed(w, key, to, layerOf(w, to));
          const i = ctl.free(b.length, "byte");
          b[i] ^= bit;
          return { bytes: b, label: `byte ${i} altered` };
        });
      }
      f("truncated and extended", (w, key, ctl, _id, to) => {
        const b = sealed(w, key, to, layerOf(w, to));
        const i = ctl.free(b.length + 40, "length");
        const n = i < b.length ? i : i + 1;
        return { bytes: n < b.length ? b.slice(0, n) : cat(b, new Uint8Array(n - b.length).fill(3)), label: `${n} of ${b.length} bytes` };
      });
      f("blocks exchanged", (w, key, ctl, _id, to) => {
        const b = sealed(w, key, to, layerOf(w, to));
        const blocks = (b.length - 24) / 16;
        const i = ctl.free(blocks, "block"), j = ctl.free(blocks - 1, "with");
        const k = j >= i ? j + 1 : j;
        const c = b.slice();
        c.set(b.subarray(24 + 16 * i, 40 + 16 * i), 24 + 16 * k);
        if (i < k) c.set(b.subarray(24 + 16 * k, 40 + 16 * k), 24 + 16 * i);
        return { bytes: c, label: `block ${i} in place of ${k}` };
      });
      f("reflected and repeated", (w, key, ctl, _id, to) => {
        const b = sealed(w, key, to, layerOf(w, to));
        const other = sealed(w, key, (1 - to) as 0 | 1, layerOf(w, (1 - to) as 0 | 1));
        const l: [string, Uint8Array][] = [
          ...w.packets.map((p) => [`packet ${p.from}:${p.seq}`, p.bytes.slice()] as [string, Uint8Array]),
          ["a message of its own to come", other],
          ["the message key of a genuine packet", cat(b.subarray(0, 8), w.log[1 - to][0].bytes.subarray(8, 24), b.subarray(24))],
          ["a genuine head", cat(w.log[1 - to][0].bytes.subarray(0, 40), b.subarray(40))],
        ];
        const [label, bytes] = l[ctl.free(l.length, "which")];
        return { bytes, label };
      });
      f("wrong keys and directions", (w, key, ctl, _id, to) => {
        const layer = layerOf(w, to);
        const kid = sealed(w, key, to, layer).slice(0, 8);
        const x = (1 - to) === creator ? 0 : 8;
        const l: [string, Uint8Array][] = [
          ["sealed with another key", sealed(w, testKey(3), to, layer)],
          ["sealed with another key, named as the right one", sealed(w, testKey(3), to, layer, { keyId: kid })],
          ["sealed for the other direction", sealed(w, key, to, layer, { x: 8 - x })],
          ["sealed with an empty key", sealed(w, new Uint8Array(256), to, layer, { keyId: kid })],
          ["no key identifier", cat(new Uint8Array(8), sealed(w, key, to, layer).slice(8))],
          ["message key without padding", sealed(w, key, to, layer, { mkOf: (p: Uint8Array) => p.slice(0, -16) })],
          ["MTProto 1.0 style message key", sealed(w, key, to, layer, { mkOf: (p: Uint8Array) => p.slice(4) })],
        ];
        for (const p of [0, 4, 8, 1036, 1040, 2060]) {
          l.push([`about ${p} bytes of padding`, sealedWithPadding(w, key, to, layer, p)]);
        }
        for (const n of [-4, -1, 0x7fffffff, 100000, -2147483648]) l.push([`length ${n}`, sealed(w, key, to, layer, { length: n >>> 0 })]);
        const [label, bytes] = l[ctl.free(l.length, "which")];
        return { bytes, label };
      });
      f("contents out of bounds", (w, key, ctl, _id, to) => {
        const base = layerOf(w, to);
        const l: [string, any, boolean][] = [
          ["out_seq_no of the wrong party", { out_seq_no: base.out_seq_no ^ 1 }, true],
          ["a negative out_seq_no", { out_seq_no: base.out_seq_no - 1000 }, true],
          ["in_seq_no of the wrong party", { in_seq_no: base.in_seq_no ^ 1 }, true],
          ["in_seq_no counting a message that was never sent", { in_seq_no: base.in_seq_no + 2 }, true],
          ["in_seq_no far too high", { in_seq_no: base.in_seq_no + 2000 }, true],
          ["a negative in_seq_no", { in_seq_no: base.in_seq_no - 1000 }, true],
          ["in_seq_no lower than before", { in_seq_no: base.in_seq_no - 2 }, w.log[1 - to].at(-1)!.layer.in_seq_no >= base.in_seq_no],
          ["an old number again with other contents", { out_seq_no: base.out_seq_no - 2 }, false],
        ];
        const [label, over, discards] = l.filter(([n, , d]) => d || !n.startsWith("in_seq_no lower"))[ctl.free(l.length - (l[6][2] ? 0 : 1), "which")];
        return { bytes: sealed(w, key, to, { ...base, ...over }), label, discards };
      });
      f("resend requests out of bounds", (w, key, ctl, _id, to) => {
        const base = layerOf(w, to);
        const mine = creator === to ? 1 : 0;
        const n = w.log[to].length;
        const l: [string, number, number][] = [["more than was sent", 0, 2 * n], ["what was never sent", 2 * n, 2 * n + 2], ["negative", -2, 0], ["reversed", 2 * (n - 1), -2], ["the wrong party's", 1, 1]];
        const [label, a, b] = l[ctl.free(l.length, "which")];
        return { bytes: sealed(w, key, to, { ...base, message: { _: "decryptedMessageService", random_id: 3n, action: { _: "decryptedMessageActionResend", start_seq_no: a + mine, end_seq_no: b + mine } } }), label: `a request to resend ${label}`, discards: true };
      });
      f("the key that was replaced", (w, key, _ctl, _id, to) => ({ bytes: sealed(w, key, to, layerOf(w, to)), label: "a message sealed with the key that was replaced" }), true);
      f("replay after the key was replaced", (w, _key, ctl, _id, to) => {
        const p = w.packets[ctl.free(w.packets.length, "which")];
        void to;
        return { bytes: p.bytes.slice(), label: `packet ${p.from}:${p.seq} ${p.what}` };
      }, true);
    }
    return list;
  },
} satisfies CheckDef;

function sealedWithPadding(w: SecretWorld, key: Uint8Array, to: 0 | 1, layer: any, padding: number) {
  // the body is stretched so that the whole stays a number of blocks
  for (let extra = 0; extra < 16; extra += 4) {
    const l = { ...layer, random_bytes: new Uint8Array(15 + extra) };
    if ((4 + codec.encode(l).length + padding) % 16 === 0) return sealed(w, key, to, l, { padding });
  }
  throw new Error("harness: padding");
}
