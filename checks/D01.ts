// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, settle, W } from "../lib/world.ts";
import { App, SELF } from "../lib/client.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";
import * as errors from "/repo/4_errors.ts";

// Who there is. Identifiers as applications use them.
const A = 11, B = 12, C = -1000000000050, D = -1000000000051, G = -9;
const channelId = (id: number) => BigInt(-1000000000000 - id);
const isUser = (id: number) => id > 0;
const letter = (id: number) => ({ [A]: "A", [B]: "B", [C]: "C", [D]: "D", [G]: "G", 777: "self" } as any)[id];
interface Known {
  hash: bigint;
  name: string;
  usernames: string[];
}
interface Cfg {
  name: string;
  events: string[];
  depth: number;
  bot?: boolean;
}
/** What each event is made of: `what:who:version:usernames`, the usernames of the first form or as a list. */
const object = (id: number, version: number, names: string[], list: boolean, min = false): any => {
  const u = { ...(names.length && !list ? { username: names[0] } : {}), ...(list ? { usernames: names.map((username, i) => ({ _: "username", username, active: true, ...(i ? {} : { editable: true }) })) } : {}) };
  if (isUser(id)) return { _: "user", id: BigInt(id), ...(min ? { min: true, access_hash: 5n } : { access_hash: hashOf(id, version) }), first_name: nameOf(id, version) + (min ? " min" : ""), ...u };
  if (id === G) return { _: "chat", id: 9n, title: nameOf(id, version), photo: { _: "chatPhotoEmpty" }, participants_count: 2, date: 1, version };
  return { _: "channel", id: channelId(id), ...(min ? { min: true } : {}), access_hash: min ? 5n : hashOf(id, version), title: nameOf(id, version) + (min ? " min" : ""), photo: { _: "chatPhotoEmpty" }, date: 1, megagroup: id === C, broadcast: id !== C, ...u };
};
const hashOf = (id: number, version: number) => id === G ? 0n : (isUser(id) ? BigInt(id) * 1000n : channelId(id) * 1000n) + BigInt(version);
const nameOf = (id: number, version: number) => `${letter(id)}${version}`;
const FORMS = [(u: string) => u, (u: string) => "@" + u.toUpperCase(), (u: string) => `https://t.me/${u}`, (u: string) => `${u.toLowerCase()}.t.me`, (u: string) => `@${u} `, (u: string) => `t.me/${u.toLowerCase()}/5`, (u: string) => u[0].toUpperCase() + u.slice(1)];

function scenario(cfg: Cfg): Scenario {
  return {
    name: cfg.name,
    shard: true,
    async run(ctl: Ctl) {
      const disk = new Disk();
      let app!: App;
      const boot = async (again: boolean) => {
        app = new App(ctl, { isBot: cfg.bot, params: { defaultHandlers: false, persistCache: true } });
        app.create({ storage: new ModelStorage(disk) });
        app.onRequest = (r) => answer(r.q);
        await app.start(again);
      };
      // the truth
      const versions = new Map<number, number>([[A, 1], [B, 1], [C, 1], [D, 1], [G, 1]]);
      const names = new Map<number, string[]>([[A, []], [B, []], [C, []], [D, []]]);
      const phones = new Map<string, number>([["15550001", A]]);
      const owner = (u: string) => [...names].find(([, l]) => l.some((x) => x.toLowerCase() === u.toLowerCase()))?.[0];
      // what the client has been told
      const known = new Map<number, Known>();
      const told = new Map<string, { id: number; at: number; sure: boolean }>();
      const references = new Map<number, { chat: number; message: number }[]>();
      const lookups: string[] = [];
      const phoneTold = new Map<string, number>(), phoneAt = new Map<string, number>();
      let serial = 100;
      const tell = (id: number) => {
        const list = names.get(id) ?? [];
        for (const [u, t] of told) if (t.id === id && !list.some((x) => x.toLowerCase() === u)) t.sure = false;
        for (const u of list) told.set(u.toLowerCase(), { id, at: W.now, sure: true });
        known.set(id, { hash: hashOf(id, versions.get(id)!), name: nameOf(id, versions.get(id)!), usernames: [...list] });
      };
      const full = (id: number) => object(id, versions.get(id) ?? 1, names.get(id) ?? [], (names.get(id) ?? []).length > 1);
      const split = (ids: number[], f = full) => ({ users: ids.filter(isUser).map(f), chats: ids.filter((x) => !isUser(x)).map(f) });
      let result: any = null;
      const answer = (q: any): any => {
        switch (q._) {
          case "contacts.resolveUsername": {
            lookups.push(q.username.toLowerCase());
            const id = owner(q.username);
            if (id === undefined) return { error: [400, "USERNAME_NOT_OCCUPIED"] };
            return { result: { _: "contacts.resolvedPeer", peer: isUser(id) ? { _: "peerUser", user_id: BigInt(id) } : { _: "peerChannel", channel_id: channelId(id) }, ...split([id]) } };
          }
          case "contacts.resolvePhone": {
            lookups.push("+" + q.phone);
            const id = phones.get(q.phone);
            if (id === undefined) return { error: [400, "PHONE_NOT_OCCUPIED"] };
            return { result: { _: "contacts.resolvedPeer", peer: { _: "peerUser", user_id: BigInt(id) }, ...split([id]) } };
          }
          case "users.getUsers": {
            if (q.id[0]._ === "inputUserSelf") return undefined;
            if (q.id[0].user_id === undefined) return { result: result };
            lookups.push(`user ${q.id[0].user_id}`);
            return { result: cfg.bot && Number(q.id[0].user_id) === A ? [full(A)] : [{ _: "userEmpty", id: q.id[0].user_id }] };
          }
          case "channels.getChannels":
            lookups.push(`channel ${q.id[0].channel_id}`);
            if (cfg.bot && q.id[0].channel_id === channelId(C)) return { result: { _: "messages.chats", chats: [full(C)] } };
            return { error: [400, "CHANNEL_INVALID"] };
          case "contacts.getContacts":
          case "messages.getMessages":
          case "messages.getHistory":
          case "messages.getCommonChats":
          case "channels.getParticipant":
            return { result };
        }
      };
      const ask = async <T>(p: Promise<T>): Promise<{ v?: T; e?: any }> => {
        let end: any;
        p.then((v) => end = { v }, (e) => end = { e });
        for (let i = 0; i < 5 && !end; i++) await settle();
        check(end, "a chat is looked for without end");
        return end;
      };
      const where = (id: number) => isUser(id) ? { _: "peerUser", user_id: BigInt(id) } : id === G ? { _: "peerChat", chat_id: 9n } : { _: "peerChannel", channel_id: channelId(id) };
      const message = (chat: number, from: number) => ({ _: "message", id: ++serial, peer_id: where(chat), from_id: where(from), date: 1, message: "x" });
      const queries = async () => {
        check(!W.unhandled.length, () => "unhandled error: " + String((W.unhandled[0] as any)?.stack ?? W.unhandled[0]));
        // by identifier
        for (const id of [A, B, C, D, G]) {
          const before = lookups.length;
          const r = await ask<any>(app.client.getInputPeer(id));
          const k = known.get(id);
          const said = () => `getInputPeer(${letter(id)}) gives ${r.e ? String(r.e) : JSON.stringify(r.v, (_k, x) => typeof x === "bigint" ? `${x}n` : x)}`;
          if (id === G) {
            check(r.v?._ === "inputPeerChat" && r.v.chat_id === 9n, said, "a group is addressed wrongly");
            continue;
          }
          const direct = (hash: bigint) => isUser(id) ? r.v?._ === "inputPeerUser" && r.v.user_id === BigInt(id) && r.v.access_hash === hash : r.v?._ === "inputPeerChannel" && r.v.channel_id === channelId(id) && r.v.access_hash === hash;
          if (k) {
            check(direct(k.hash), () => `${said()}, and was told its access hash is ${k.hash}`, "a known chat is addressed wrongly");
            check(lookups.length === before, () => `${letter(id)} is looked up although known`, "a known chat is looked up");
            continue;
          }
          const refs = (references.get(id) ?? []).filter((x) => known.has(x.chat) && x.chat !== G);
          const all = references.get(id) ?? [];
          if (refs.length && refs.at(-1) === all.at(-1)) {
            const last = refs.at(-1)!;
            const ok = r.v?._ === (isUser(id) ? "inputPeerUserFromMessage" : "inputPeerChannelFromMessage") && (isUser(id) ? r.v.user_id === BigInt(id) : r.v.channel_id === channelId(id)) && refs.some((x) => x.message === r.v.msg_id && channelId(x.chat) === r.v.peer.channel_id && r.v.peer.access_hash === known.get(x.chat)!.hash);
            check(ok, () => `${said()}, and has been seen in message ${last.message} of ${letter(last.chat)}`, "a chat seen in a message is addressed wrongly");
            continue;
          }
          if (refs.length) continue;
          if (cfg.bot && (id === A || id === C)) {
            check(direct(hashOf(id, versions.get(id)!)), said, "a chat a bot can look up is addressed wrongly");
            tell(id);
          } else check(r.e instanceof errors.AccessError || (cfg.bot && r.e), () => `${said()}, and knows nothing of it`, "an unknown chat is addressed");
        }
        const own = await ask<any>(app.client.getInputPeer(Number(SELF)));
        check(own.v?._ === "inputPeerSelf" && (await ask<any>(app.client.getInputPeer("me"))).v?._ === "inputPeerSelf", "the own account is addressed wrongly");
        for (const [id, k] of known) {
          const r = await ask<any>(app.client.getChatP(id));
          check(r.v?.id === id && (r.v.firstName ?? r.v.title) === k.name, () => `getChatP(${letter(id)}) gives ${JSON.stringify(r.v ?? String(r.e))}, and was told it is ${k.name}`, "a chat is known otherwise than told last");
          const got = [r.v.username, ...(r.v.also ?? [])].filter(Boolean);
          check(got.join() === k.usernames.join(), () => `getChatP(${letter(id)}) says its usernames are ${got} instead of ${k.usernames}`, "a chat's usernames are known otherwise than told last");
        }
        // by username
        let form = serial;
        for (const u of ["alice", "Bobby", "Nobody"]) {
          const t = told.get(u.toLowerCase());
          const text = FORMS[form++ % FORMS.length](u);
          const before = lookups.length;
          const r = await ask<any>(app.client.getInputPeer(text));
          const looked = lookups.slice(before);
          const id = r.v && (isUserPeer(r.v) ? Number(r.v.user_id ?? SELF) : Number(-1000000000000n - r.v.channel_id));
          const said = () => `getInputPeer(${JSON.stringify(text)}) gives ${r.e ? String(r.e) : letter(id)}`;
          const fresh = t && t.sure && W.now - t.at < 60_000;
          if (fresh && !known.has(t.id)) {
            // nothing of it but the username is known
            check(r.e instanceof errors.AccessError || id === t.id, () => `${said()}, and was told it is ${letter(t.id)}`, "a username is taken for that of another chat");
            continue;
          }
          if (fresh) {
            check(id === t.id, () => `${said()}, and was told it is ${letter(t.id)}`, "a username is taken for that of another chat");
            check(looked.length === 0, () => `${u} is looked up although just told`, "a username is looked up although just told");
            const k = known.get(t.id);
            if (k) check(r.v.access_hash === k.hash, () => `${said()} with another access hash`, "a username gives another access hash");
            continue;
          }
          if (t && !known.has(t.id) && looked.length === 0 && r.e instanceof errors.AccessError) continue;
          if (t && !t.sure && looked.length === 0 && id === t.id) continue;
          if (t && W.now - t.at < 86_400_000 && looked.length === 0 && id === t.id) continue;
          check(looked.join() === u.toLowerCase(), () => `${said()} after looking up ${looked.join() || "nothing"}`, "a username is looked up wrongly");
          const right = owner(u);
          if (right === undefined) check(r.e instanceof errors.TelegramError && r.e.errorMessage === "USERNAME_NOT_OCCUPIED", said, "a username nobody has is found");
          else {
            check(id === right, () => `${said()} instead of ${letter(right)}`, "a username is taken for that of another chat");
            tell(right);
            check(r.v.access_hash === known.get(right)!.hash, () => `${said()} with another access hash`, "a username gives another access hash");
            // and now it is known
            const again = await ask<any>(app.client.getInputPeer(FORMS[form % FORMS.length](u)));
            check(again.v && lookups.length === before + 1, () => `${u} is looked up again`, "a username is looked up again");
          }
        }
        // by phone number
        for (const [i, phone] of ["15550001", "15550002"].entries()) {
          const right = phones.get(phone), t = phoneTold.get(phone);
          const before = lookups.length;
          const r = await ask<any>(app.client.getInputPeer(i ? phone : "+" + phone));
          const looked = lookups.slice(before);
          if (t !== undefined && looked.length === 0) {
            check(r.v?.user_id === BigInt(t) && r.v.access_hash === known.get(t)!.hash, `getInputPeer("+${phone}") gives ${r.e ?? letter(Number(r.v.user_id))}`, "a phone number is taken for that of another account");
            continue;
          }
          check(t === undefined || W.now - phoneAt.get(phone)! >= 60_000, "a phone number is looked up although just looked up");
          check(looked.join() === "+" + phone, `${looked.join() || "nothing"} is looked up for +${phone}`, "a phone number is looked up wrongly");
          if (right === undefined) check(r.e instanceof errors.TelegramError && r.e.errorMessage === "PHONE_NOT_OCCUPIED", "a phone number nobody has is found");
          else {
            tell(right);
            phoneTold.set(phone, right);
            phoneAt.set(phone, W.now);
            check(r.v?.user_id === BigInt(right) && r.v.access_hash === hashOf(right, versions.get(right)!), `getInputPeer("+${phone}") gives ${r.e ?? letter(Number(r.v.user_id))}`, "a phone number is taken for that of another account");
          }
        }
        ctl.outcome(JSON.stringify([...known.keys(), ...lookups]));
      };
      const isUserPeer = (p: any) => p._ === "inputPeerUser" || p._ === "inputPeerSelf" || p._ === "inputPeerUserFromMessage";
      const plain = { _: "updateConfig" };
      const push = async (ids: number[], f = full, update: any = plain) => {
        app.push({ _: "updates", updates: [update], ...split(ids, f), date: Math.floor(W.now / 1000), seq: 0 });
        await settle();
      };
      await boot(false);
      const ids: any = { A, B, C, D, G };
      const happen = async (event: string) => {
        ctl.step(event);
        const [what, who, ...rest] = event.split(" ");
        const id = ids[who];
        W.now += 1000;
        const take = (names_: string[]) => {
          // a username belongs to one chat
          for (const [k, l] of names) names.set(k, l.filter((x) => !names_.some((y) => y.toLowerCase() === x.toLowerCase())));
          names.set(id, names_);
        };
        switch (what) {
          case "told": // an update mentions the chat as it is now
          case "answer": // an answer does
          case "listed": { // users as such
            const version = rest.find((x) => /^\d$/.test(x));
            if (version) versions.set(id, Number(version));
            const u = rest.filter((x) => !/^\d$/.test(x));
            if (u.length && id !== G) take(u[0] === "none" ? [] : u);
            if (what === "told") await push([id]);
            else if (what === "listed") {
              result = [full(id)];
              await ask(app.client.invoke({ _: "users.getUsers", id: [{ _: "inputUserEmpty" }] }));
            } else {
              result = isUser(id) ? { _: "contacts.contacts", contacts: [], saved_count: 0, users: [full(id)] } : { _: "messages.chats", chats: [full(id)] };
              await ask(app.client.invoke(isUser(id) ? { _: "contacts.getContacts", hash: 0n } : { _: "messages.getCommonChats", user_id: { _: "inputUserSelf" }, max_id: 0n, limit: 1 }));
            }
            tell(id);
            break;
          }
          case "min": { // little of it is told, with a message in another chat
            const chat = ids[rest[0]];
            const m = message(chat, id);
            const f = (x: number) => object(x, 9, ["alice"], false, true);
            if (rest[1] === "answer") {
              result = { _: "messages.messages", messages: [m], topics: [], ...split([id], f) };
              await ask(app.client.invoke({ _: "messages.getMessages", id: [] }));
            } else await push([id], f, { _: "updateEditChannelMessage", message: m, pts: 1, pts_count: 0 });
            references.set(id, [...(references.get(id) ?? []), { chat, message: m.id }]);
            break;
          }
          case "renamed": { // an update about usernames
            const u = rest[0] === "none" ? [] : rest;
            take(u);
            await push([], full, { _: "updateUserName", user_id: BigInt(id), first_name: nameOf(id, versions.get(id)!), last_name: "", usernames: u.map((username, i) => ({ _: "username", username, active: true, ...(i ? {} : { editable: true }) })) });
            for (const [x, t] of told) if (t.id === id && !u.some((y) => y.toLowerCase() === x)) t.sure = false;
            for (const x of u) told.set(x.toLowerCase(), { id, at: W.now, sure: true });
            const k = known.get(id);
            if (k) k.usernames = u;
            break;
          }
          case "forbidden":
            result = { _: "messages.chats", chats: [{ _: "channelForbidden", id: channelId(id), access_hash: hashOf(id, 7), title: nameOf(id, 7), megagroup: id === C, broadcast: id !== C }] };
            await ask(app.client.invoke({ _: "messages.getCommonChats", user_id: { _: "inputUserSelf" }, max_id: 0n, limit: 1 }));
            known.set(id, { hash: hashOf(id, 7), name: nameOf(id, 7), usernames: [] });
            for (const [, t] of told) if (t.id === id) t.sure = false;
            break;
          case "later":
            W.now += 2 * 86_400_000;
            break;
          case "restart": {
            const p = ask(app.client.disconnect());
            await p;
            await advance(10_000);
            await boot(true);
            break;
          }
          case "asked":
            await queries();
            break;
        }
        await settle();
      };
      for (let i = 0; i < cfg.depth; i++) await happen(ctl.pick(cfg.events, "event"));
      await queries();
      await queries();
      const p = ask(app.client.disconnect());
      await p;
      app.checkUnhandled();
    },
  };
}
void advance;

export default {
  id: "D01",
  level: "model_checking",
  rule: "every sequence of the listed events (chats mentioned in full or minimally in updates and answers, with other names, usernames and access hashes; changes of usernames; restarts; time; questions in between) up to the stated length, then every chat asked for by identifier and username in all ways to write them; non-trivial when what is known and looked up is new",
  assumptions: ["How long usernames are remembered between a minute and a day, what they give after they were taken from a chat, and which of several messages a chat was seen in is used, is not specified."],
  exhaustive: true,
  scenarios: (tier) => {
    const d = tier === "quick" ? 0 : 1;
    const s = (name: string, depth: number, events: string, bot = false) => scenario({ name, depth: depth + d, events: events.split(", "), bot });
    return [
      s("usernames", 3, "told A 1 alice, told A 2 Alice, answer B 1 ALICE, listed B 2 alice Bobby, told C 1 Alice, renamed A bobby, renamed A none, renamed B none, renamed B Alice bobby, later, asked"),
      s("access hashes", 3, "told A 1, told A 2 none, answer A 3 Bobby, min A C, told C 1, told C 2 alice, min D C answer, told D 1, forbidden C, forbidden D, restart"),
      s("seen in messages", 4, "min A C, min A D answer, min B G answer, told C 1, answer D 2, told G 1, told A 1, restart"),
      s("a bot", 3, "told A 1, told A 2 Alice, min A C, told C 1, told D 1 bobby, told B 1, asked, restart", true),
    ];
  },
} satisfies CheckDef;
