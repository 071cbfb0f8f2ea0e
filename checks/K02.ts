// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { advance, settle, W } from "../lib/world.ts";
import { App, channel, group, SELF, selfUser, user } from "../lib/client.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";
import { SALT1, SALT2, Srp, verifier } from "../lib/auth_server.ts";
import { be, PRIME, ube } from "../lib/handshake.ts";

const SEC = 1000, MIN = 60 * SEC, DAY = 24 * 60 * MIN;
const GROUP = -9, CHANNEL = -1000000000050, ALICE = 11;
const peers: any = { A: { _: "peerUser", user_id: 11n }, G: { _: "peerChat", chat_id: 9n }, C: { _: "peerChannel", channel_id: 50n } };
const ids: any = { A: ALICE, G: GROUP, C: CHANNEL };
const text = new TextEncoder();
/** All there is to read in a value. */
function readable(v: unknown): string {
  if (typeof v === "string") return v;
  if (v instanceof Uint8Array) return [...v].map((x) => x >= 32 && x < 127 ? String.fromCharCode(x) : " ").join("");
  if (v && typeof v === "object") return Object.values(v).map(readable).join("\n");
  return "";
}

/** What one kind of question is asked about. */
interface Subject {
  /** answers of the server */
  answer(q: any): any;
  /** something happens; whoever asks compares */
  happen(event: string, args: string[]): Promise<void>;
  /** asked last */
  final(): Promise<void>;
  /** what the application is told */
  told?(u: any): void;
  state(): string;
}
interface Cfg {
  name: string;
  events: string[];
  depth: number;
  bot?: boolean;
  memory?: boolean;
  params?: any;
  make: (t: Stage) => Subject;
}
interface Stage {
  ctl: Ctl;
  app: App;
  disk: Disk;
  people: { users: any[]; chats: any[] };
  push(...updates: any[]): void;
  ask<T>(what: string, f: (c: any) => Promise<T>): Promise<{ v?: T; e?: any }>;
  /** What the application is to be told of. */
  expect(what: string): void;
  later: (() => void)[];
}

function scenario(cfg: Cfg): Scenario {
  return {
    name: cfg.name,
    shard: true,
    async run(ctl: Ctl) {
      let subject!: Subject;
      let want: string[] = [], got: string[] = [];
      const finish = async () => {
        for (let i = 0; i < 3; i++) {
          await settle();
          await advance(10);
        }
      };
      const t: Stage = {
        ctl,
        app: undefined as any,
        disk: new Disk(),
        people: { users: [selfUser(), user(11n), user(12n), user(13n)], chats: [group(9n), channel(50n)] },
        push: (...updates) => void t.app.push({ _: "updates", updates, users: t.people.users, chats: t.people.chats, date: Math.floor(W.now / 1000), seq: 0 }),
        expect: (what) => void want.push(what),
        later: [],
        ask: async (what, f) => {
          let end: any;
          f(t.app.client).then((v: any) => end = { v }, (e: any) => end = { e });
          for (let i = 0; i < 5 && !end; i++) await finish();
          check(end, `${what} never ends`, "a question never ends");
          return end;
        },
      };
      const boot = async (again: boolean) => {
        t.app = new App(ctl, { isBot: cfg.bot, params: { defaultHandlers: false, persistCache: true, ...(cfg.params ?? {}) } });
        t.app.create(cfg.memory ? {} : { storage: new ModelStorage(t.disk) });
        t.app.onRequest = (r) => {
          const a = subject.answer(r.q);
          // what happens right after the answer
          if (a && t.later.length) {
            const l = t.later.splice(0);
            queueMicrotask(() => queueMicrotask(() => l.forEach((f) => f())));
          }
          return a;
        };
        t.app.client.use((ctx: any, next: any) => {
          const u = ctx.toJSON?.() ?? ctx;
          const s = (subject as any).told?.(u);
          if (s) got.push(s);
          return next();
        });
        await t.app.start(again);
        await finish();
      };
      subject = cfg.make(t);
      await boot(false);
      t.push({ _: "updateConfig" });
      await finish();
      const happen = async (event: string) => {
        ctl.step(event);
        W.now += SEC;
        const [what, ...args] = event.split(" ");
        if (what === "restart") {
          await t.ask("disconnect", (c) => c.disconnect());
          await advance(10_000);
          await boot(true);
        } else if (what === "wait") {
          // as a machine that sleeps
          W.now += Number(args[0]) * SEC;
          await advance(1000);
        }
        else await subject.happen(what, args);
        await finish();
        const a = got.splice(0), b = want.splice(0);
        check(a.join("\n") === b.join("\n"), () => `after "${event}" the application is told\n    ${a.join("\n    ") || "nothing"}\n  instead of\n    ${b.join("\n    ") || "nothing"}`, `told of ${cfg.name}`);
      };
      for (let i = 0; i < cfg.depth; i++) await happen(ctl.pick(cfg.events, "event"));
      await subject.final();
      ctl.outcome(subject.state());
      await t.ask("disconnect", (c) => c.disconnect());
      t.app.checkUnhandled();
    },
  };
}
const same = (what: string, got: { v?: any; e?: any }, want: any, cls: string) => {
  check(!got.e, () => `${what} fails with ${got.e?.stack ?? got.e}`, `${cls} fails`);
  const a = JSON.stringify(got.v), b = JSON.stringify(want);
  check(a === b, () => `${what} gives\n    ${a}\n  instead of\n    ${b}`, cls);
};

// --- the strings of a language pack
function translations(t: Stage): Subject {
  const pack = new Map<string, any>([["a", { _: "langPackString", key: "a", value: "a1" }], ["b", { _: "langPackStringPluralized", key: "b", other_value: "b1", one_value: "b1 one", few_value: "b1 few" }]]);
  let version = 1, n = 1;
  const log: [number, string][] = [];
  const strings = () => [...pack.values()];
  const seen = (l: any[]) => l.map((x) => `${x.key}=${[x.value, x.zero, x.one, x.two, x.few, x.many].filter((v) => v !== undefined)}`).sort().join(" ");
  const truth = () => seen(strings().map((x) => x._ === "langPackString" ? x : { key: x.key, value: x.other_value, zero: x.zero_value, one: x.one_value, two: x.two_value, few: x.few_value, many: x.many_value }));
  let last: string | null = null; // as of what was told or answered last
  const given: [any, string][] = [];
  const difference = (from: number) => ({ _: "langPackDifference", lang_code: "en", from_version: from, version, strings: [...new Set(log.filter(([v]) => v > from).map(([, k]) => k))].map((k) => pack.get(k) ?? { _: "langPackStringDeleted", key: k }) });
  const asking = async () => {
    const before = last, r = await t.ask("getTranslations", (c) => c.getTranslations());
    check(!r.e, () => `getTranslations fails with ${r.e?.stack ?? r.e}`, "translations fail");
    const s = seen(r.v as any);
    const keys = (r.v as any[]).map((x) => x.key);
    check(s === truth() || (before !== null && s === before), () => `getTranslations gives ${s} instead of ${truth()}`, "translations are not what they are");
    check(new Set(keys).size === keys.length, () => `getTranslations gives ${keys}`, "translations are given twice");
    last = s;
    given.push([r.v, s]);
  };
  return {
    answer(q) {
      switch (q._) {
        case "langpack.getLangPack":
          return { result: { _: "langPackDifference", lang_code: q.lang_code, from_version: 0, version, strings: strings() } };
        case "langpack.getDifference":
          return { result: difference(q.from_version) };
      }
    },
    told: (u) => {
      if (!u.translations) return;
      given.push([u.translations, seen(u.translations)]);
      return `translations ${seen(u.translations)}` as any;
    },
    async happen(what, args) {
      if (what === "get") return await asking();
      const from = version;
      version++;
      const [how, key] = args[0] === "nothing" ? ["", ""] : args;
      n++;
      if (how === "plain") pack.set(key, { _: "langPackString", key, value: key + n });
      if (how === "plural") pack.set(key, { _: "langPackStringPluralized", key, other_value: key + n, one_value: `${key}${n} one`, ...(n % 2 ? { two_value: `${key}${n} two`, zero_value: `${key}${n} zero`, many_value: `${key}${n} many` } : { few_value: `${key}${n} few` }) });
      if (how === "deleted") pack.delete(key);
      if (key) log.push([version, key]);
      if (what === "told" || what === "much") {
        t.push(what === "told" ? { _: "updateLangPack", difference: difference(from) } : { _: "updateLangPackTooLong", lang_code: "en" });
        if (last !== null || what === "much") last = truth(), t.expect(`translations ${last}`);
      } // or it is not told of
    },
    async final() {
      await asking();
      for (const [v, s] of given) check(seen(v) === s, () => `translations given as ${s} became ${seen(v)}`, "translations given earlier change");
    },
    state: () => version + truth() + last,
  };
}

// --- video chats, and the descriptions of chats
function chats(t: Stage): Subject {
  const calls = new Map<bigint, any>();
  const current: any = { G: undefined, C: undefined };
  const photos: any = { A: 1, G: 1, C: 1 };
  const members: any = { creator: 12n, admins: [] as bigint[], rest: [777n] as bigint[] };
  let version = 1;
  const knows = new Set<bigint>();
  const photo = (w: string) => ({ _: "photo", id: BigInt(photos[w]), access_hash: 5n, file_reference: new Uint8Array(4), date: 1, sizes: [{ _: "photoSize", type: "a", w: 1, h: 1, size: photos[w] }], dc_id: 2 });
  const call = (w: string) => current[w] === undefined ? undefined : { _: "inputGroupCall", id: current[w], access_hash: current[w] + 100n };
  const participants = () => ({ _: "chatParticipants", chat_id: 9n, version, participants: [{ _: "chatParticipantCreator", user_id: members.creator }, ...members.admins.map((x: bigint) => ({ _: "chatParticipantAdmin", user_id: x, inviter_id: 12n, date: 1 })), ...members.rest.map((x: bigint) => ({ _: "chatParticipant", user_id: x, inviter_id: 12n, date: 1 }))] });
  const settings = { _: "peerNotifySettings" };
  const asVideo = (c: any) => c._ === "groupCallDiscarded" ? { type: "ended", id: String(c.id), duration: c.duration } : c.schedule_date ? { type: "scheduled", id: String(c.id), title: c.title, scheduledFor: c.schedule_date, isLiveStream: false, participantCount: c.participants_count } : { type: "active", id: String(c.id), title: c.title, isLiveStream: false, isRecording: !!c.record_video_active, participantCount: c.participants_count };
  const chat = async (w: string) => {
    const r = await t.ask(`getChat(${w})`, (c) => c.getChat(ids[w]));
    if (!r.e) r.v = { id: (r.v as any).id, photo: (r.v as any).photo?.fileSize, videoChatId: (r.v as any).videoChatId } as any;
    same(`getChat(${w})`, r, { id: ids[w], photo: photos[w], videoChatId: current[w] === undefined ? undefined : String(current[w]) }, "a chat is not what it is");
    if (current[w] !== undefined) knows.add(current[w]);
  };
  const video = async (id: bigint) => {
    const c = calls.get(id);
    if (!c || !knows.has(id)) return;
    if (c._ === "groupCallDiscarded") return;
    same(`getVideoChat(${id})`, await t.ask("getVideoChat", (x) => x.getVideoChat(String(id))), asVideo(c), "a video chat is not what it is");
  };
  const status = (m: any) => `${m.member.id} ${m.status}`;
  const listed = async (which: "getChatMembers" | "getChatAdministrators") => {
    const r = await t.ask(which, (c) => c[which](GROUP));
    if (!r.e) r.v = (r.v as any).map(status).sort();
    const l = [`${members.creator} creator`, ...members.admins.map((x: bigint) => `${x} administrator`), ...(which === "getChatMembers" ? members.rest.map((x: bigint) => `${x} member`) : [])].sort();
    same(`${which} of a group`, r, l, "members are not who they are");
  };
  return {
    answer(q) {
      const over = { users: t.people.users, chats: t.people.chats };
      switch (q._) {
        case "messages.getFullChat":
          return { result: { _: "messages.chatFull", full_chat: { _: "chatFull", id: 9n, about: "", participants: participants(), chat_photo: photo("G"), notify_settings: settings, call: call("G") }, ...over } };
        case "channels.getFullChannel":
          return { result: { _: "messages.chatFull", full_chat: { _: "channelFull", id: 50n, about: "", read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, chat_photo: photo("C"), notify_settings: settings, bot_info: [], pts: 1, call: call("C") }, ...over } };
        case "users.getFullUser":
          return { result: { _: "users.userFull", full_user: { _: "userFull", id: 11n, settings: { _: "peerSettings" }, profile_photo: photo("A"), notify_settings: settings, common_chats_count: 0 }, chats: t.people.chats, users: t.people.users } };
        case "phone.getGroupCall":
          return { result: { _: "phone.groupCall", call: calls.get(q.call.id) ?? fail(`asked for the group call ${q.call.id}`), participants: [], participants_next_offset: "", ...over } };
      }
    },
    told: (u) => u.videoChat && `video chat ${JSON.stringify(u.videoChat)}` as any,
    async happen(what, args) {
      const w = args[0];
      switch (what) {
        case "get":
          return await chat(w);
        case "listed":
          await listed("getChatMembers");
          return await listed("getChatAdministrators");
        case "video":
          return await video(BigInt(args[1] ?? 1));
        case "photo": // which the server says by saying that something changed
        case "racing": {
          const change = () => {
            photos[w]++;
            t.push(w === "A" ? { _: "updateUser", user_id: 11n } : w === "G" ? { _: "updateChat", chat_id: 9n } : { _: "updateChannel", channel_id: 50n });
          };
          if (what === "photo") return change();
          // right after the answer to the question
          t.later.push(change);
          const before = photos[w];
          const r = await t.ask(`getChat(${w})`, (c) => c.getChat(ids[w]));
          check(!r.e, () => `getChat(${w}) fails with ${r.e?.stack ?? r.e}`, "a chat fails");
          const p = (r.v as any).photo?.fileSize;
          check(p === before || p === photos[w], () => `getChat(${w}) gives the photo ${p} instead of ${before}`, "a chat is not what it is");
          if (current[w] !== undefined) knows.add(current[w]);
          t.later = [];
          return;
        }
        case "call": {
          const id = BigInt(args[2] ?? 1), old = calls.get(id);
          const how = args[1];
          if (old?._ === "groupCallDiscarded") return;
          if (how === "ended") {
            if (!old) return;
            calls.set(id, { _: "groupCallDiscarded", id, access_hash: id + 100n, duration: 5 });
            if (current[w] === id) current[w] = undefined;
          } else {
            if (old && old.chat !== w) return;
            calls.set(id, { _: "groupCall", chat: w, id, access_hash: id + 100n, participants_count: (old?.participants_count ?? 0) + 1, title: `t${id}`, unmuted_video_limit: 1, version: (old?.version ?? 0) + 1, ...(how === "scheduled" ? { schedule_date: 5000 } : {}), ...(how === "recorded" ? { record_video_active: true } : {}) });
            current[w] = id;
          }
          knows.add(id);
          const c = { ...calls.get(id), chat: undefined };
          t.push({ _: "updateGroupCall", peer: peers[w], call: c });
          t.expect(`video chat ${JSON.stringify(asVideo(c))}`);
          return;
        }
        case "counted": { // said without the chat
          const id = BigInt(args[1] ?? 1), old = calls.get(id);
          if (!old || !knows.has(id) || old._ === "groupCallDiscarded") return;
          calls.set(id, { ...old, participants_count: old.participants_count + 1, version: old.version + 1 });
          t.push({ _: "updateGroupCall", call: { ...calls.get(id), chat: undefined } });
          return;
        }
        case "joins": {
          if (members.rest.includes(13n) || members.admins.includes(13n)) return;
          members.rest.push(13n), version++;
          t.push({ _: "updateChatParticipantAdd", chat_id: 9n, user_id: 13n, inviter_id: 12n, date: 1, version });
          return;
        }
        case "leaves": {
          if (!members.rest.includes(13n) && !members.admins.includes(13n)) return;
          members.rest = members.rest.filter((x: bigint) => x !== 13n), members.admins = members.admins.filter((x: bigint) => x !== 13n), version++;
          t.push({ _: "updateChatParticipantDelete", chat_id: 9n, user_id: 13n, version });
          return;
        }
        case "promoted":
        case "demoted": {
          const up = what === "promoted", from = up ? "rest" : "admins", to = up ? "admins" : "rest";
          if (!members[from].includes(777n)) return;
          members[from] = members[from].filter((x: bigint) => x !== 777n), members[to].push(777n), version++;
          t.push({ _: "updateChatParticipantAdmin", chat_id: 9n, user_id: 777n, is_admin: up, version });
          return;
        }
        case "replaced": {
          members.rest = [777n, 11n], members.admins = [], version++;
          t.push({ _: "updateChatParticipants", participants: participants() });
          return;
        }
      }
    },
    async final() {
      for (const w of ["G", "C", "A"]) await chat(w);
      await listed("getChatMembers");
      for (const id of calls.keys()) await video(id);
    },
    state: () => JSON.stringify([photos, [...calls.values()], current, members], (_, v) => typeof v === "bigint" ? String(v) : v),
  };
}

// --- polls
function polls(t: Stage): Subject {
  const poll: any = { _: "poll", id: 7n, question: { _: "textWithEntities", text: "q1", entities: [] }, answers: ["x", "y"].map((o) => ({ _: "pollAnswer", text: { _: "textWithEntities", text: `option ${o}`, entities: [] }, option: text.encode(o) })), hash: 0n };
  const votes: any = { x: 1, y: 0 };
  let chosen: string | null = null, told = false, known = false, pts = 1, version = 1;
  const results = (min = false): any => ({ _: "pollResults", ...(min ? { min: true } : {}), results: ["x", "y"].map((o) => ({ _: "pollAnswerVoters", ...(!min && chosen === o ? { chosen: true } : {}), option: text.encode(o), voters: votes[o], recent_voters: [] })), total_voters: votes.x + votes.y });
  const message = (): any => ({ _: "message", id: 5, peer_id: peers.A, from_id: peers.A, date: 100, message: "", ...(version > 1 ? { edit_date: 100 + version } : {}), media: { _: "messageMediaPoll", poll: { ...poll }, results: results() } });
  const see = (p: any) => `${p.question} ${p.options.map((o: any) => `${o.id}:${o.voterCount}${o.isChosen ? "*" : ""}`)} of ${p.totalVoterCount}${p.isClosed ? " closed" : ""}`;
  const truth = () => `${poll.question.text} ${["x", "y"].map((o) => `${o}:${votes[o]}${chosen === o ? "*" : ""}`)} of ${votes.x + votes.y}${poll.closed ? " closed" : ""}`;
  const asking = async (how: string) => {
    const r = await t.ask(how, (c) => how === "history" ? c.getHistory(ALICE) : c.getMessages(ALICE, [5]));
    same(how === "history" ? "the history" : "getMessages", r.e ? r : { v: (r.v as any).map((m: any) => see(m.poll)) }, [truth()], "a poll is not what it is");
    told = true;
  };
  const update = (min: boolean, whole: boolean) => ({ _: "updateMessagePoll", poll_id: 7n, ...(whole ? { poll: { ...poll } } : {}), results: results(min) });
  const tell = (min: boolean, whole: boolean) => {
    t.push(update(min, whole));
    // what a new poll is cannot be known
    if (known ||= told || whole) t.expect(`poll ${truth()}`);
  };
  return {
    answer(q) {
      switch (q._) {
        case "messages.getMessages":
          return { result: { _: "messages.messages", messages: q.id.map((x: any) => x.id === 5 ? message() : { _: "messageEmpty", id: x.id }), topics: [], users: t.people.users, chats: t.people.chats } };
        case "messages.getHistory":
          return { result: { _: "messages.messages", messages: [message()], topics: [], users: t.people.users, chats: t.people.chats } };
        case "messages.sendVote": {
          const o = q.options.map((x: Uint8Array) => new TextDecoder().decode(x));
          if (chosen) votes[chosen]--;
          chosen = o[0] ?? null;
          if (chosen) votes[chosen]++;
          return { result: { _: "updates", updates: [update(false, false)], users: t.people.users, chats: t.people.chats, date: 1, seq: 0 } };
        }
      }
    },
    told: (u) => (u.poll ? `poll ${see(u.poll)}` : u.message?.poll ? `message ${see(u.message.poll)}` : u.editedMessage?.poll ? `edited ${see(u.editedMessage.poll)}` : undefined) as any,
    async happen(what, args) {
      switch (what) {
        case "arrives":
          if (told) return;
          told = true;
          t.push({ _: "updateNewMessage", message: message(), pts: ++pts, pts_count: 1 });
          t.expect(`message ${truth()}`);
          return;
        case "get":
        case "history":
          return await asking(what);
        case "others": // vote, while nobody in particular is told
          votes[args[0]]++;
          return tell(true, args[1] === "whole");
        case "vote": {
          if (poll.closed || chosen === args[0]) return;
          const r = await t.ask("vote", (c) => c.vote(ALICE, 5, [args[0] === "x" ? 0 : 1]));
          check(!r.e, () => `vote fails with ${r.e?.stack ?? r.e}`, "a vote fails");
          told = true;
          return t.expect(`poll ${truth()}`);
        }
        case "closed":
          poll.closed = true;
          return tell(args[0] !== "for", true);
        case "edited": // the message is told instead of the poll
          if (args[0] === "closed") poll.closed = true;
          else votes.y++;
          version++;
          told = true;
          t.push({ _: "updateEditMessage", message: message(), pts: ++pts, pts_count: 1 });
          return t.expect(`edited ${truth()}`);
      }
    },
    async final() {
      await asking("get");
    },
    state: () => truth() + told + version,
  };
}

// --- answers that say for how long they are valid
function answers(t: Stage): Subject {
  let n = 0;
  /** what was answered to what: what and when */
  const given = new Map<string, { what: string; at: number; valid: number }[]>();
  let srp: any = null, srpId = 1n;
  const asking = async (key: string, f: (c: any) => Promise<any>, right = true) => {
    const began = W.now;
    const r = await t.ask(key, f);
    if (!right) return check(r.e && String(r.e).includes("PASSWORD_HASH_INVALID"), () => `${key} gives ${JSON.stringify(r.v)} ${r.e} with a wrong password`, "a wrong password is right");
    check(!r.e, () => `${key} fails with ${r.e?.stack ?? r.e}`, "a question fails");
    const l = given.get(key) ?? [], x = l.find((x) => x.what === (r.v as any));
    check(x, () => `${key} is answered ${r.v}, which was never the answer to it; the answers were ${l.map((x) => x.what)}`, "the answer to another question is given");
    // an answer given anew is of this moment
    check(x!.at >= began || (x!.valid > 0 && began - x!.at <= x!.valid * SEC), () => `${key} is answered ${r.v}, which was the answer ${(began - x!.at) / SEC} s ago and valid for ${x!.valid} s`, "an answer is given after it expired");
  };
  const give = (key: string, valid: number) => {
    const what = `answer ${++n}`;
    given.set(key, [...(given.get(key) ?? []), { what, at: W.now, valid }]);
    return what;
  };
  const name = (p: any) => p._ === "inputPeerChat" ? "G" : p._ === "inputPeerChannel" ? "C" : String(p.user_id);
  let valid = 60;
  return {
    answer(q) {
      switch (q._) {
        case "account.getPassword": {
          const algo = { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: SALT1, salt2: SALT2, g: 3, p: be(PRIME, 256) };
          srp = new Srp(verifier("secret", 3), 3, 70_001n + srpId++);
          return { result: { _: "account.password", has_password: true, current_algo: algo, srp_B: be(srp.B, 256), srp_id: srpId, new_algo: algo, new_secure_algo: { _: "securePasswordKdfAlgoUnknown" }, secure_random: new Uint8Array(8) } };
        }
        case "messages.getBotCallbackAnswer": {
          if (q.password) {
            const ok = srp && q.password.srp_id === srpId && srp.verify(ube(q.password.A), q.password.M1);
            srp = null;
            if (!ok) return { error: [400, "PASSWORD_HASH_INVALID"] };
          }
          const key = `callback ${name(q.peer)} ${q.msg_id} ${q.game ? "game" : new TextDecoder().decode(q.data)}${q.password ? " password" : ""}`;
          return { result: { _: "messages.botCallbackAnswer", message: give(key, valid), cache_time: valid } };
        }
        case "messages.getInlineBotResults":
          return { result: { _: "messages.botResults", query_id: 1n, next_offset: give(`inline ${q.bot.user_id} ${name(q.peer)} ${q.query} ${q.offset}`, valid), results: [], cache_time: valid, users: [] } };
      }
    },
    async happen(what, args) {
      switch (what) {
        case "valid":
          valid = Number(args[0]);
          return;
        case "callback": {
          const [who, id, data, password] = args;
          const question = data === "game" ? { type: "game" } : password ? { type: "password", data, password } : { type: "button", data };
          const r = asking(`callback ${who === "A" ? "11" : who} ${id} ${data}${password ? " password" : ""}`, (c) => c.sendCallbackQuery(ids[who], Number(id), question).then((x: any) => x.text), !password || password === "secret");
          await r;
          return;
        }
        case "inline": {
          const [bot, who, query, offset] = args;
          await asking(`inline ${bot} ${who === "A" ? "11" : who} ${query} ${offset ?? ""}`, (c) => c.sendInlineQuery(Number(bot), ids[who], { query, ...(offset ? { offset } : {}) }).then((x: any) => x.nextOffset));
          return;
        }
      }
    },
    final: async () => {
      for (const secret of ["secret", "wrong"]) check(!readable(t.disk.entries).includes(secret), () => `the password "${secret}" is stored`, "a password is stored");
    },
    state: () => JSON.stringify([...given].map(([k, l]) => [k, l.length])),
  };
}

// --- stickers
function stickers(t: Stage): Subject {
  const exists = new Set(["1", "2", "3"]);
  let reference = 1, title = 1;
  const changed: number[] = [0], renamed: number[] = [0];
  const doc = (id: string): any => ({ _: "document", id: BigInt(id), access_hash: BigInt(id) + 100n, file_reference: new Uint8Array([reference]), date: 1, mime_type: "application/x-tgsticker", size: 1000n + BigInt(id), dc_id: 2, attributes: [{ _: "documentAttributeCustomEmoji", alt: `alt${id}`, stickerset: { _: "inputStickerSetID", id: 5n, access_hash: 6n } }, { _: "documentAttributeSticker", alt: `alt${id}`, stickerset: { _: "inputStickerSetID", id: BigInt(id) % 2n + 5n, access_hash: 6n } }] });
  const files = new Map<string, string>();
  const asking = async (l: string[]) => {
    const r = await t.ask(`getCustomEmojiStickers(${l})`, (c) => c.getCustomEmojiStickers(l));
    check(!r.e, () => `getCustomEmojiStickers(${l}) fails with ${r.e?.stack ?? r.e}`, "custom emoji fail");
    const there = l.filter((x) => exists.has(x));
    const seen = (r.v as any[]).map((x) => `${x.customEmojiId} ${x.emoji} ${x.fileSize}`).sort();
    const want = there.map((x) => `${x} alt${x} ${1000 + Number(x)}`).sort();
    check(seen.join() === want.join(), () => `getCustomEmojiStickers(${l}) gives ${seen} instead of ${want}`, "custom emoji are others");
    for (const x of r.v as any[]) {
      const [set, no] = x.setName.split(" ");
      check(set === `set${Number(x.customEmojiId) % 2 + 5}`, () => `the sticker ${x.customEmojiId} is said to be of ${x.setName}`, "a sticker is said to be of another set");
      // names may be remembered for two days
      check(Number(no) === title || W.now - renamed[Number(no)] <= 2 * DAY, () => `the set is still called ${x.setName} ${(W.now - renamed[Number(no)]) / DAY} days after it became ${title}`, "an old name is given");
      // and references for half an hour
      const before = files.get(x.fileId);
      if (before === undefined) files.set(x.fileId, `${x.customEmojiId} ${reference}`);
      else {
        const [id, ref] = before.split(" ");
        check(id === x.customEmojiId, () => `the sticker ${x.customEmojiId} is given the file of ${id}`, "custom emoji are others");
        check(Number(ref) === reference || W.now - changed[Number(ref)] <= 30 * MIN + 30_000, () => `the sticker ${x.customEmojiId} is given with the reference ${ref} after it became ${reference}`, "an old reference is given");
      }
    }
  };
  return {
    answer(q) {
      switch (q._) {
        case "messages.getCustomEmojiDocuments": {
          let l = [...new Set<string>(q.document_id.map(String))].filter((x) => exists.has(x));
          const order = l.length > 1 ? t.ctl.pick(["as asked", "sorted", "the other way round"], "the order of documents") : "as asked";
          if (order === "sorted") l = l.sort();
          if (order === "the other way round") l = l.reverse();
          return { result: l.map(doc) };
        }
        case "messages.getStickerSet":
          return { result: { _: "messages.stickerSet", set: { _: "stickerSet", id: q.stickerset.id, access_hash: 6n, title: "t", short_name: `set${q.stickerset.id} ${title}`, count: 1, hash: 0 }, packs: [], keywords: [], documents: [] } };
      }
    },
    async happen(what, args) {
      if (what === "get") return await asking(args);
      if (what === "referenced") changed[reference++] = W.now;
      if (what === "renamed") renamed[title++] = W.now;
    },
    final: async () => {
      await asking(["3", "1", "2"]);
    },
    state: () => `${reference} ${title} ${[...files.values()]}`,
  };
}

// --- connections of businesses
function business(t: Stage): Subject {
  let rights = true, disabled = false, date = 1, qts = 1;
  const connection = (): any => ({ _: "botBusinessConnection", connection_id: "b1", user_id: 11n, dc_id: 2, date, ...(disabled ? { disabled: true } : {}), ...(rights ? { rights: { _: "businessBotRights", reply: true } } : {}) });
  const see = (x: any) => `${x.id} ${x.user.id} ${x.date} ${x.canReply} ${x.isEnabled}`;
  const truth = () => `b1 11 ${date} ${rights} ${!disabled}`;
  const asking = async () => {
    const r = await t.ask("getBusinessConnection", (c) => c.getBusinessConnection("b1"));
    same("getBusinessConnection", r.e ? r : { v: see(r.v) }, truth(), "a business connection is not what it is");
  };
  return {
    answer(q) {
      if (q._ === "account.getBotBusinessConnection") return { result: { _: "updates", updates: [{ _: "updateBotBusinessConnect", connection: connection(), qts: 0 }], users: t.people.users, chats: [], date: 1, seq: 0 } };
    },
    told: (u) => u.businessConnection && see(u.businessConnection) as any,
    async happen(what) {
      if (what === "get") {
        const n = t.app.requests.length;
        await asking();
        // the answer is an update as well
        if (t.app.requests.slice(n).some((r) => r.q._ === "account.getBotBusinessConnection")) t.expect(truth());
        return;
      }
      if (what === "disabled") disabled = true;
      if (what === "enabled") disabled = false;
      if (what === "rights") rights = !rights;
      date++;
      t.push({ _: "updateBotBusinessConnect", connection: connection(), qts: ++qts });
      t.expect(truth());
    },
    final: async () => await asking(),
    state: () => truth() + qts,
  };
}

// --- transcriptions of voice messages
function transcriptions(t: Stage): Subject {
  let version = 1, pts = 1;
  const done = new Map<number, boolean>(); // transcriptions by version of the message
  const message = (): any => ({ _: "message", id: 5, peer_id: peers.A, from_id: peers.A, date: 100, message: "", ...(version > 1 ? { edit_date: 100 + version } : {}), media: { _: "messageMediaDocument", voice: true, document: { _: "document", id: BigInt(version), access_hash: 5n, file_reference: new Uint8Array(4), date: 1, mime_type: "audio/ogg", size: 100n, dc_id: 2, attributes: [{ _: "documentAttributeAudio", voice: true, duration: 5 }] } } });
  const transcription = () => ({ ...(done.get(version) ? {} : { pending: true }), transcription_id: BigInt(version), text: done.get(version) ? `whole ${version}` : `part ${version}` });
  const see = (x: any) => `${x.id} ${x.text} ${x.isCompleted}`;
  const truth = () => `${version} ${done.get(version) ? "whole" : "part"} ${version} ${!!done.get(version)}`;
  const asking = async () => {
    if (!done.has(version)) done.set(version, t.ctl.pick([false, true], "is it transcribed at once"));
    const r = await t.ask("transcribeVoice", (c) => c.transcribeVoice(ALICE, 5));
    same("transcribeVoice", r.e ? r : { v: see(r.v) }, truth(), "a transcription is not what it is");
  };
  return {
    answer(q) {
      switch (q._) {
        case "messages.getMessages":
          return { result: { _: "messages.messages", messages: [message()], topics: [], users: t.people.users, chats: t.people.chats } };
        case "messages.transcribeAudio":
          return { result: { _: "messages.transcribedAudio", ...transcription() } };
      }
    },
    told: (u) => (u.voiceTranscription ? see(u.voiceTranscription) : undefined) as any,
    async happen(what) {
      if (what === "transcribe") return await asking();
      if (what === "done") {
        if (done.get(version) !== false) return;
        done.set(version, true);
        t.push({ _: "updateTranscribedAudio", peer: peers.A, msg_id: 5, ...transcription() });
        t.expect(truth());
      }
      if (what === "edited") {
        version++;
        t.push({ _: "updateEditMessage", message: message(), pts: ++pts, pts_count: 1 });
      }
    },
    final: async () => await asking(),
    state: () => truth(),
  };
}
void SELF;

export default {
  id: "K02",
  level: "model_checking",
  rule: "every sequence of the listed events (questions asked, what they are about changing at the server and being told of or not, time passing, restarts) up to the stated length, each answer compared with what the server says, then everything asked again; non-trivial when what the server has and has told is new",
  assumptions: ["Answers and updates arrive in the order in which the server says them.", "The server says that a chat changed by the updates it has for that."],
  exhaustive: true,
  scenarios: (tier) => {
    const d = tier === "quick" ? -1 : 0;
    const s = (name: string, make: Cfg["make"], depth: number, events: string, over: Partial<Cfg> = {}) => scenario({ name, make, depth: depth + d, events: events.split(", "), ...over });
    const lang = { platform: "android", language: "en" };
    return [
      s("translations", translations, 4, "get, told plain a, told plural a, told plain b, told deleted b, told plural c, missed plain b, missed deleted a, much nothing, much plain c, restart", { params: lang }),
      s("translations in memory", translations, 4, "get, told plain b, told plural b, told deleted a, told plain c, missed plural a, much nothing", { params: lang, memory: true }),
      s("chats", chats, 4, "get A, get G, get C, photo A, photo G, photo C, racing A, racing G, racing C, restart"),
      s("members", chats, 4, "listed, joins, leaves, promoted, demoted, replaced, get G, photo G, restart"),
      s("video chats", chats, 4, "get G, get C, call G active, call G scheduled 2, call C recorded, call G ended, call G ended 2, counted G, video G, restart"),
      s("video chats in memory", chats, 4, "get G, call G active, call G active 2, call G ended, call G ended 2, counted G 2, video G, racing G", { memory: true }),
      s("polls", polls, 4, "arrives, get, history, others x, others y whole, vote x, vote y, closed, edited closed, edited votes, restart"),
      s("polls in memory", polls, 4, "arrives, get, others x, vote y, closed, closed for, edited votes, history", { memory: true }),
      s("callback answers", answers, 4, "callback A 5 x, callback A 5 y, callback A 6 x, callback A 5 game, callback G 5 x, valid 0, valid 5, wait 30, wait 100, restart"),
      s("confirmed by password", answers, 3, "callback A 5 x secret, callback A 5 x wrong, callback A 5 x, valid 0, restart, wait 100"),
      s("inline answers", answers, 4, "inline 11 G q, inline 12 G q, inline 11 C q, inline 11 G r, inline 11 G q 2, valid 0, valid 5, wait 30, wait 100, restart"),
      s("custom emoji", stickers, 3, "get 1, get 2 1, get 1 2 3, get 9 2, get 9 1 2, referenced, renamed, wait 1000, wait 2000, wait 200000, restart"),
      s("business connections", business, 5, "get, disabled, enabled, rights, restart", { bot: true }),
      s("transcriptions", transcriptions, 5, "transcribe, done, edited, restart"),
    ];
  },
} satisfies CheckDef;
