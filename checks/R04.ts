import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { apiCodec, Rpc, settle } from "../lib/rpc.ts";
import { badSalt, envelopeKeys, igeEnc, keyId, newSession, rpcError, rpcResult, sha256, testKey } from "../lib/mt.ts";
import { Bytes } from "../lib/tl.ts";

type Forge = { name: string; n: number; make: (r: Rpc, genuine: Uint8Array, i: number) => Uint8Array | null };

const flip = (b: Uint8Array, byte: number, mask: number) => {
  const c = b.slice();
  c[byte] ^= mask;
  return c;
};

/** What the forged packet pretends to be. */
function payload(r: Rpc, kind: string): { body: Uint8Array; session: bigint } {
  const m = r.answerable()[0];
  const session = m.sessionId;
  switch (kind) {
    case "result":
      return { session, body: rpcResult(m.msgId, apiCodec.encode({ _: "help.deepLinkInfo", message: "forged" })) };
    case "error":
      return { session, body: rpcResult(m.msgId, rpcError(400, "FORGED")) };
    case "update":
      return { session, body: apiCodec.encode({ _: "updateServiceNotification", type: "forged", message: "forged", media: { _: "messageMediaEmpty" }, entities: [] }) };
    case "salt":
      return { session, body: badSalt(m.msgId, m.seqno, 666n) };
    default:
      return { session, body: newSession(m.msgId, 5n, 666n) };
  }
}
/** A packet sealed as the client would, rather than the server. */
function sealAsClient(key: Uint8Array, salt: bigint, session: bigint, msgId: bigint, body: Uint8Array) {
  const w = new Bytes().i64(salt).i64(session).i64(msgId).u32(1).u32(body.length).raw(body);
  w.raw(new Uint8Array((16 - ((w.length + 12) % 16)) % 16 + 12).fill(0xA5));
  const plain = w.done();
  const mk = sha256(key.subarray(88, 120), plain).subarray(8, 24);
  const { aesKey, aesIv } = envelopeKeys(key, mk, 0);
  return new Bytes().i64(keyId(key)).raw(mk).raw(igeEnc(plain, aesKey, aesIv)).done();
}

async function attack(ctl: Ctl, kind: string, forge: (r: Rpc, genuine: Uint8Array) => Uint8Array | null) {
  const r = new Rpc(ctl);
  await r.start();
  const c = r.invoke();
  await settle();
  const { body, session } = payload(r, kind);
  const salt = r.client.serverSalt;
  const genuine = r.server.seal(session, body);
  const p = forge(r, genuine);
  if (p === null) return;
  ctl.step(`deliver a forged ${kind}`);
  const l = r.live()!;
  r.everythingMayBeResent();
  l.conn.deliver(l, p);
  await settle();
  check(c.status === "pending", () => `the call settled because of a forged packet: ${c.status} ${c.value?.message ?? c.error}`, "a forged packet settled a call");
  check(r.updates.length === 0, "a forged packet was dispatched as an update", "a forged packet was dispatched");
  check(!r.newSalts.includes(666n), "a forged packet changed the salt", "a forged packet changed the salt");
  ctl.state(`${kind} ${r.server.sessions.size} ${r.net.links.length} ${r.client.serverSalt === salt}`);
  await r.finish();
  r.checkCalls();
  r.checkTransmissions();
  r.checkNoUnhandled();
  ctl.count("cases");
  ctl.outcome(`${kind} ${r.server.sessions.size} ${r.net.links.length} ${c.sent.length}`);
}

const kinds = ["result", "update", "error", "salt", "session"];

export default {
  id: "R04",
  level: "fault_enumeration",
  rule: "every single-bit flip (thorough: every wrong value of every byte), every truncation, every swap of cipher blocks and every wrong key, direction or session of genuine server packets; non-trivial: how the client reacted (ignored, new session, new connection) differs by kind of packet",
  assumptions: ["an attacker does not hold the authorization key"],
  exhaustive: true,
  scenarios(tier) {
    const masks = tier === "thorough" ? Array.from({ length: 255 }, (_, i) => i + 1) : [1, 2, 4, 8, 16, 32, 64, 128, 255];
    const out: Scenario[] = [];
    for (const kind of kinds) {
      for (const mask of masks) {
        out.push({
          name: `${kind}, flips of ${mask}`,
          shard: false,
          run: (ctl) =>
            attack(ctl, kind, (_r, g) => {
              const i = ctl.free(g.length, "byte");
              return flip(g, i, mask);
            }),
        });
      }
      out.push({
        name: `${kind}, truncated`,
        run: (ctl) =>
          attack(ctl, kind, (_r, g) => {
            const n = ctl.free(g.length, "length");
            return n === 4 ? null : g.slice(0, n);
          }),
      });
      out.push({
        name: `${kind}, blocks`,
        run: (ctl) =>
          attack(ctl, kind, (_r, g) => {
            const blocks = (g.length - 24) / 16;
            const how = ctl.free(3, "how");
            const i = ctl.free(blocks, "block");
            const data: Uint8Array[] = [];
            for (let k = 0; k < blocks; k++) data.push(g.slice(24 + 16 * k, 40 + 16 * k));
            if (how === 0) data.splice(i, 0, data[i]);
            else if (how === 1) data.splice(i, 1);
            else {
              const j = ctl.free(blocks, "other");
              if (j === i) return null;
              [data[i], data[j]] = [data[j], data[i]];
            }
            const w = new Bytes().raw(g.slice(0, 24));
            for (const d of data) w.raw(d);
            return w.done();
          }),
      });
      out.push({
        name: `${kind}, foreign`,
        run: (ctl) =>
          attack(ctl, kind, (r, g) => {
            const { body, session } = payload(r, kind);
            const key = testKey();
            switch (ctl.free(9, "what")) {
              case 0:
                return r.server.seal(session, body, { key: testKey(2) });
              case 1: {
                // sealed under another key, labelled with the right one
                const p = r.server.seal(session, body, { key: testKey(2) });
                p.set(g.subarray(0, 8), 0);
                return p;
              }
              case 2:
                return r.server.seal(session + 1n, body);
              case 3:
                return r.server.seal(0n, body);
              case 4:
                return sealAsClient(key, r.server.salt, session, r.server.nextMsgId(), body);
              case 5:
                return r.live()!.fromClient.at(-1)!; // reflected
              case 6:
                return new Bytes().i64(0n).i64(r.server.nextMsgId()).u32(body.length).raw(body).done(); // unencrypted
              case 7: {
                const k = testKey();
                k[255] ^= 1; // same key but for a byte no derivation uses
                const p = r.server.seal(session, body, { key: k });
                return p;
              }
              default:
                return r.server.seal(BigInt.asIntN(64, session ^ (1n << 63n)), body);
            }
          }),
      });
    }
    // a packet of an earlier session of the same client
    out.push({
      name: "packet for the previous session",
      async run(ctl) {
        const r = new Rpc(ctl);
        await r.start();
        const c = r.invoke();
        await settle();
        const old = r.answerable()[0];
        r.refuseMsg(old, 32);
        await settle();
        const now = r.answerable()[0];
        check(now && now.sessionId !== old.sessionId, "the session was not replaced");
        const l = r.live()!;
        ctl.step("deliver");
        l.conn.deliver(l, r.server.seal(old.sessionId, rpcResult([old, now][ctl.free(2, "request")].msgId, apiCodec.encode({ _: "help.deepLinkInfo", message: "forged" }))));
        await settle();
        check(c.status === "pending", "a packet of an earlier session settled a call", "a packet of an earlier session settled a call");
        await r.finish();
        r.checkCalls();
      },
    });
    return out;
  },
} satisfies CheckDef;
