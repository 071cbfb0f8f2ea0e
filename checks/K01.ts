// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { advance, settle, W } from "../lib/world.ts";
import { App, channel, group, SELF, user } from "../lib/client.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";

// Chats as applications know them. A and G share one space of identifiers, C and D have their own.
const IDS = { A: 11, G: -9, C: -1000000000050, D: -1000000000051 } as const;
type Who = keyof typeof IDS;
const peer = (w: Who): any => w === "A" ? { _: "peerUser", user_id: 11n } : w === "G" ? { _: "peerChat", chat_id: 9n } : { _: "peerChannel", channel_id: w === "C" ? 50n : 51n };
const own = (w: Who) => w === "C" || w === "D";
const space = (w: Who) => own(w) ? w : "";
const people = { users: [user(11n), user(12n)], chats: [group(9n), channel(50n), channel(51n, { megagroup: undefined, broadcast: true })] };
const name = (id: number) => Object.entries(IDS).find(([, x]) => x === id)?.[0] ?? String(id);

interface Msg {
  chat: Who;
  id: number;
  version: number;
  views?: number;
  forwards?: number;
  reactions?: [string, number][];
  reply?: number;
  replyIn?: Who;
  from?: bigint;
}
interface Cfg {
  name: string;
  events: string[];
  depth: number;
  bot?: boolean;
  memory?: boolean;
  /** what the server says when it is asked for messages: one is picked each time */
  answers?: string[];
  budget?: number;
}
const text = (m: Msg) => `${m.chat}${m.id} v${m.version}`;
const object = (m: Msg, over: any = {}): any => ({
  _: "message",
  id: m.id,
  peer_id: peer(m.chat),
  from_id: { _: "peerUser", user_id: m.from ?? 12n },
  date: 100,
  message: text(m),
  ...(m.version > 1 ? { edit_date: 100 + m.version } : {}),
  // one bit says that there are both
  ...(m.views !== undefined || m.forwards !== undefined ? { views: m.views ?? 0, forwards: m.forwards ?? 0 } : {}),
  ...(m.reactions ? { reactions: reactions(m) } : {}),
  ...(m.reply ? { reply_to: { _: "messageReplyHeader", reply_to_msg_id: m.reply, ...(m.replyIn ? { reply_to_peer_id: peer(m.replyIn) } : {}) } } : {}),
  ...over,
});
const reactions = (m: Msg): any => ({ _: "messageReactions", results: (m.reactions ?? []).map(([emoticon, count]) => ({ _: "reactionCount", reaction: { _: "reactionEmoji", emoticon }, count })) });
const seen = (r: any) => (r ?? []).map((x: any) => `${x.reaction?.emoji}${x.count}`).join();
/** What an application sees of a message. */
const brief = (m: any): string => m ? `${name(m.chat?.id)} ${m.id} ${JSON.stringify(m.text)} views ${m.views ?? 0} forwards ${m.forwards ?? 0} reactions ${seen(m.reactions)} edited ${m.editDate ?? 0}${m.from?.firstName === "u12" ? "" : ` from ${m.from?.firstName}`}${m.isScheduled ? " scheduled" : ""}` : String(m);
const expected = (m: Msg, extra = "") => `${m.chat} ${m.id} ${JSON.stringify(text(m))} views ${m.views ?? 0} forwards ${m.forwards ?? 0} reactions ${(m.reactions ?? []).map(([e, n]) => e + n).join()} edited ${m.version > 1 ? 100 + m.version : 0}${m.from ? ` from u${m.from}` : ""}${extra}`;

function scenario(cfg: Cfg): Scenario {
  return {
    name: cfg.name,
    shard: true,
    budget: cfg.budget,
    async run(ctl: Ctl) {
      const disk = new Disk();
      let app!: App;
      let got: string[] = [];
      const server = new Map<string, Msg>();
      const told = new Set<string>();
      const key = (chat: Who, id: number) => `${space(chat)}:${id}`;
      const at = (chat: Who, id: number) => {
        const m = server.get(key(chat, id));
        return m?.chat === chat ? m : undefined;
      };
      let pts = 1;
      const channelPts: any = { C: 1, D: 1 };
      let asked: string[] = [];
      let final = false;
      let tooLong: any = null;
      const strangers: { m: Msg; pts: number }[] = [];
      const answer = (q: any, r: any): any => {
        switch (q._) {
          case "messages.getMessages":
          case "channels.getMessages": {
            const where: Who | "" = q._ === "messages.getMessages" ? "" : q.channel.channel_id === 50n ? "C" : "D";
            const ids = q.id.map((x: any) => x.id);
            asked.push(`${where}:${ids}`);
            const how = cfg.answers && !final ? ctl.pick(cfg.answers, "the answer about messages", 1) : "right";
            if (how !== "right") {
              if (how === "lost") {
                queueMicrotask(() => r.link.conn.drop(r.link));
                return null;
              }
              return { error: [400, how] };
            }
            const messages = ids.map((id: number) => {
              const m = server.get(`${where}:${id}`);
              return m ? object(m) : { _: "messageEmpty", id };
            });
            for (const id of ids) if (server.has(`${where}:${id}`)) told.add(`${where}:${id}`);
            return { result: where ? { _: "messages.channelMessages", pts: channelPts[where], count: messages.length, messages, topics: [], ...people } : { _: "messages.messages", messages, topics: [], ...people } };
          }
          case "messages.getHistory": {
            const chat = (q.peer._ === "inputPeerUser" ? "A" : q.peer._ === "inputPeerChat" ? "G" : q.peer.channel_id === 50n ? "C" : "D") as Who;
            const l = [...server.values()].filter((m) => m.chat === chat).sort((a, b) => b.id - a.id);
            for (const m of l) told.add(key(chat, m.id));
            return { result: { _: "messages.messages", messages: l.map((m) => object(m)), topics: [], ...people } };
          }
          case "messages.getScheduledHistory":
            return { result: { _: "messages.messages", messages: [scheduled(q.peer._ === "inputPeerUser" ? "A" : q.peer._ === "inputPeerChat" ? "G" : q.peer.channel_id === 50n ? "C" : "D")], topics: [], ...people } };
          case "updates.getDifference": {
            if (tooLong === "begin") {
              tooLong = "end";
              return { result: { _: "updates.differenceTooLong", pts } };
            }
            const news = strangers.filter((x) => !own(x.m.chat) && x.pts > q.pts);
            if (news.length) return { result: { _: "updates.difference", new_messages: news.map((x) => object(x.m)), new_encrypted_messages: [], other_updates: [], chats: people.chats, users: [...people.users, user(13n)], state: { _: "updates.state", pts, qts: 1, date: 1, seq: 0, unread_count: 0 } } };
            return { result: { _: "updates.differenceEmpty", date: 1, seq: 0 } };
          }
          case "updates.getChannelDifference": {
            const chat = q.channel.channel_id === 50n ? "C" : "D";
            const l = [...server.values()].filter((m) => m.chat === chat).sort((a, b) => b.id - a.id).slice(0, 1);
            if (tooLong === chat) {
              tooLong = null;
              for (const m of l) told.add(key(chat, m.id));
              return { result: { _: "updates.channelDifferenceTooLong", final: true, dialog: { _: "dialog", peer: peer(chat), top_message: 0, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: channelPts[chat] }, messages: l.map((m) => object(m)), ...people } };
            }
            const news = strangers.filter((x) => x.m.chat === chat && x.pts > q.pts);
            if (news.length) return { result: { _: "updates.channelDifference", final: true, pts: channelPts[chat], new_messages: news.map((x) => object(x.m)), other_updates: [], chats: people.chats, users: [...people.users, user(13n)] } };
            return { result: { _: "updates.channelDifferenceEmpty", final: true, pts: channelPts[chat] } };
          }
        }
      };
      const scheduled = (chat: Who): any => object({ chat, id: 5, version: 1 }, { message: "later", date: 2_000_000_000, from_scheduled: true });
      const boot = async (again: boolean) => {
        app = new App(ctl, { isBot: cfg.bot, params: { defaultHandlers: false, persistCache: true } });
        app.create(cfg.memory ? {} : { storage: new ModelStorage(disk) });
        app.onRequest = (r) => answer(r.q, r);
        app.client.use((ctx: any, next: any) => {
          const u = ctx.toJSON?.() ?? ctx;
          note(u);
          return next();
        });
        await app.start(again);
      };
      const note = (u: any) => {
        const biz = (m: any) => m.businessConnectionId ? ` by ${m.businessConnectionId}` : "";
        for (const k of ["message", "editedMessage", "scheduledMessage"]) if (u[k]) got.push(`${k} ${brief(u[k])}${biz(u[k])}${u[k].replyToMessage ? ` (to ${brief(u[k].replyToMessage)})` : ""}`);
        if (u.deletedMessages) got.push(`deleted ${u.deletedMessages.map((x: any) => name(x.chatId) + x.messageId)}${u.isScheduled ? " scheduled" : ""}${biz(u)}`);
        if (u.messageInteractions) got.push(`interactions ${name(u.messageInteractions.chatId)} ${u.messageInteractions.messageId} views ${u.messageInteractions.views} forwards ${u.messageInteractions.forwards} reactions ${seen(u.messageInteractions.reactions)}`);
      };
      const finish = async () => {
        for (let i = 0; i < 4; i++) {
          await settle();
          await advance(10);
        }
      };
      const ask = async <T>(p: Promise<T>, what: string): Promise<{ v?: T; e?: any }> => {
        let end: any;
        p.then((v) => end = { v }, (e) => end = { e });
        for (let i = 0; i < 5 && !end; i++) await finish();
        if (!end) await advance(60_000), await finish();
        check(end, `${what} never ends`, "asking for messages never ends");
        return end;
      };
      const push = (update: any) => app.push({ _: "updates", updates: [update], ...people, date: Math.floor(W.now / 1000), seq: 0 });
      const number = (chat: Who, count = 1) => own(chat) ? { pts: channelPts[chat] += count, pts_count: count } : { pts: pts += count, pts_count: count };
      const interactions = (m: Msg) => `interactions ${m.chat} ${m.id} views ${m.views ?? 0} forwards ${m.forwards ?? 0} reactions ${(m.reactions ?? []).map(([e, n]) => e + n).join()}`;
      let want: string[] = [];
      const compare = async (event: string) => {
        await finish();
        // it is told whatever becomes of the request for another message
        if (cfg.answers) for (let i = 0; i < 12 && got.length < want.length; i++) await advance(5_000), await finish();
        const a = got.splice(0), b = want.splice(0).map((x, i) => cfg.answers && got0(a[i], x) ? a[i] : x);
        check(a.join("\n") === b.join("\n"), () => `after "${event}" the application is told\n    ${a.join("\n    ") || "nothing"}\n  instead of\n    ${b.join("\n    ") || "nothing"}`, `updates: ${event.split(" ")[0]}`);
      };
      const got0 = (a: string | undefined, b: string) => b.startsWith(a + " (to ");
      const replyOf = (m: Msg): string[] => {
        if (!m.reply) return [""];
        const r = at(m.replyIn ?? m.chat, m.reply);
        if (!r) return [""];
        // what it is told of the other message must be right; it need not be told of one that cannot be fetched
        return [` (to ${expected(r)})`];
      };
      const happen = async (event: string) => {
        ctl.step(event);
        W.now += 1000;
        const [what, who, ...rest] = event.split(" ");
        const chat = who as Who;
        const ids = rest.map(Number);
        switch (what) {
          case "new": {
            const [id, reply] = ids;
            if (server.has(key(chat, id)) || gone.has(key(chat, id))) return;
            const m: Msg = { chat, id, version: 1, ...(reply ? { reply } : {}), ...(rest[2] ? { replyIn: rest[2] as Who } : {}) };
            server.set(key(chat, id), m);
            told.add(key(chat, id));
            push({ _: own(chat) ? "updateNewChannelMessage" : "updateNewMessage", message: object(m), ...number(chat) });
            for (const r of replyOf(m)) want.push(`message ${expected(m)}${r}`);
            break;
          }
          case "edit": {
            const m = at(chat, ids[0]);
            if (!m) return;
            m.version++;
            told.add(key(chat, m.id));
            push({ _: own(chat) ? "updateEditChannelMessage" : "updateEditMessage", message: object(m), ...number(chat) });
            for (const r of replyOf(m)) want.push(`editedMessage ${expected(m)}${r}`);
            break;
          }
          case "stranger": { // somebody of whom the update does not tell enough
            const [id] = ids;
            if (server.has(key(chat, id)) || gone.has(key(chat, id))) return;
            const m: Msg = { chat, id, version: 1, from: 13n };
            server.set(key(chat, id), m);
            told.add(key(chat, id));
            const n = number(chat);
            strangers.push({ m, pts: n.pts });
            app.push({ _: "updates", updates: [{ _: own(chat) ? "updateNewChannelMessage" : "updateNewMessage", message: object(m), ...n }], users: [user(13n, { min: true, access_hash: 5n })], chats: people.chats, date: Math.floor(W.now / 1000), seq: 0 });
            want.push(`message ${expected(m)}`);
            break;
          }
          case "silently": { // while too much has happened to be told
            const m = at(chat, ids[0]);
            if (!m) return;
            m.version++;
            if (own(chat)) {
              channelPts[chat] += 500;
              tooLong = chat;
              push({ _: "updateChannelTooLong", channel_id: peer(chat).channel_id, pts: channelPts[chat] });
              await finish();
              // the newest message is told again
              got.length = 0;
              for (const x of [...told]) if (x.startsWith(chat) && ![...server.values()].some((y) => y.chat === chat && key(chat, y.id) === x)) told.delete(x);
            } else {
              pts += 5000;
              tooLong = "begin";
              app.push({ _: "updatesTooLong" });
              await finish();
              for (const x of [...told]) if (x.startsWith(":")) told.delete(x);
            }
            break;
          }
          case "delete": {
            // in the common box, identifiers are enough
            const l = ids.filter((id) => own(chat) ? at(chat, id) : server.has(key(chat, id)));
            if (!l.length) return;
            const reported = l.filter((id) => own(chat) || told.has(key(chat, id))).map((id) => own(chat) ? chat + id : server.get(key(chat, id))!.chat + id);
            for (const id of l) server.delete(key(chat, id)), gone.add(key(chat, id)), told.delete(key(chat, id));
            push(own(chat) ? { _: "updateDeleteChannelMessages", channel_id: peer(chat).channel_id, messages: l, ...number(chat, l.length) } : { _: "updateDeleteMessages", messages: l, ...number(chat, l.length) });
            if (reported.length) want.push(`deleted ${reported}`);
            break;
          }
          case "react":
          case "viewed":
          case "forwarded": {
            const m = at(chat, ids[0]);
            if (!m) return;
            const knew = told.has(key(chat, m.id));
            if (what === "react") m.reactions = [["a", (m.reactions?.[0]?.[1] ?? 0) + 1], ["b", 1]];
            if (what === "viewed") m.views = (m.views ?? 10) + 1;
            if (what === "forwarded") m.forwards = (m.forwards ?? 0) + 1;
            push(what === "react" ? { _: "updateMessageReactions", peer: peer(chat), msg_id: m.id, reactions: reactions(m) } : what === "viewed" ? { _: "updateChannelMessageViews", channel_id: peer(chat).channel_id, id: m.id, views: m.views } : { _: "updateChannelMessageForwards", channel_id: peer(chat).channel_id, id: m.id, forwards: m.forwards });
            if (knew) want.push(interactions(m));
            break;
          }
          case "history": {
            const r = await ask<any>(app.client.getHistory(IDS[chat]), event);
            const l = [...server.values()].filter((m) => m.chat === chat).sort((a, b) => b.id - a.id);
            check(!r.e && r.v.map(brief).join("\n") === l.map((m) => expected(m)).join("\n"), () => `the history of ${chat} is\n    ${r.e ?? r.v.map(brief).join("\n    ")}\n  instead of\n    ${l.map((m) => expected(m)).join("\n    ")}`, "the history is wrong");
            break;
          }
          case "scheduled": { // messages to be sent later are numbered for themselves
            if (rest[0] === "new") {
              push({ _: "updateNewScheduledMessage", message: scheduled(chat) });
              want.push(`scheduledMessage ${chat} 5 "later" views 0 forwards 0 reactions  edited 0 scheduled`);
            } else if (rest[0] === "deleted") {
              push({ _: "updateDeleteScheduledMessages", peer: peer(chat), messages: [5] });
              want.push(`deleted ${chat}5 scheduled`);
            } else {
              const r = await ask<any>(app.client.getScheduledMessages(IDS[chat]), event);
              check(!r.e && r.v.length === 1 && r.v[0].text === "later", () => `getScheduledMessages(${chat}) gives ${r.e ?? r.v.map(brief)}`, "scheduled messages are wrong");
            }
            break;
          }
          case "business": { // messages of somebody else's account are numbered for themselves
            const m = { chat, id: 5, version: rest[0] === "edited" ? 2 : 1 };
            const o = object(m, { message: "of b1" });
            if (rest[0] === "deleted") {
              push({ _: "updateBotDeleteBusinessMessage", connection_id: "b1", peer: peer(chat), messages: [5, 7], qts: ++qts });
              want.push(`deleted ${chat}5,${chat}7 by b1`);
            } else {
              push({ _: rest[0] === "edited" ? "updateBotEditBusinessMessage" : "updateBotNewBusinessMessage", connection_id: "b1", message: o, qts: ++qts });
              want.push(`${rest[0] === "edited" ? "editedMessage" : "message"} ${chat} 5 "of b1" views 0 forwards 0 reactions  edited ${rest[0] === "edited" ? 102 : 0} by b1`);
            }
            break;
          }
          case "get":
            await query(chat, ids);
            break;
          case "restart":
            await ask(app.client.disconnect(), "disconnect");
            await advance(10_000);
            await boot(true);
            got.length = 0;
            break;
        }
        await compare(event);
      };
      let qts = 1;
      const gone = new Set<string>();
      const query = async (chat: Who, ids: number[]) => {
        asked = [];
        const r = await ask<any>(app.client.getMessages(IDS[chat], ids), "getMessages");
        if (r.e && cfg.answers && !final && asked.length) return; // as the server said
        check(!r.e, () => `getMessages(${chat}, [${ids}]) fails with ${r.e?.stack ?? r.e}`, "getMessages fails");
        const right = ids.map((id) => at(chat, id)).filter((m) => m !== undefined);
        check(r.v.map(brief).join("\n") === right.map((m) => expected(m)).join("\n"), () => `getMessages(${chat}, [${ids}]) gives\n    ${r.v.map(brief).join("\n    ") || "nothing"}\n  instead of\n    ${right.map((m) => expected(m)).join("\n    ") || "nothing"}`, "getMessages gives something else");
        for (const m of r.v) {
          const s = at(chat, m.id)!;
          const reply = s.reply ? at(s.replyIn ?? s.chat, s.reply) : undefined;
          if (m.replyToMessage) check(reply && brief(m.replyToMessage) === expected(reply), () => `${brief(m)} is said to be in reply to ${brief(m.replyToMessage)} instead of ${reply ? expected(reply) : "nothing that exists"}`, "a message is said to be in reply to another");
        }
      };
      await boot(false);
      app.push({ _: "updates", updates: [{ _: "updateConfig" }], ...people, date: 1, seq: 0 });
      // what was there before
      for (const c of ["C", "D"] as Who[]) {
        push({ _: "updateReadChannelInbox", channel_id: peer(c).channel_id, max_id: 1, still_unread_count: 0, pts: 1 });
        server.set(key(c, 3), { chat: c, id: 3, version: 1 });
      }
      server.set(":3", { chat: "A", id: 3, version: 1 });
      await finish();
      got = [];
      for (let i = 0; i < cfg.depth; i++) await happen(ctl.pick(cfg.events, "event"));
      final = true;
      for (const [c, l] of [["A", [5]], ["G", [6]], ["A", [7, 3, 5]], ["A", [6]], ["C", [5]], ["C", [5, 3, 7]], ["D", [5]], ["G", [5, 6]]] as [Who, number[]][]) {
        await query(c, l);
      }
      ctl.outcome([...server.values()].map((m) => expected(m)).join() + [...told].join());
      await ask(app.client.disconnect(), "disconnect");
      if (!cfg.answers) app.checkUnhandled();
      void SELF, fail;
    },
  };
}

export default {
  id: "K01",
  level: "model_checking",
  rule: "every sequence of the listed events (messages that are new, edited, deleted, seen, reacted to, in chats that share numbers and chats that do not; scheduled and business messages with the same numbers; too much to tell; histories and messages asked for; restarts) up to the stated length, each update compared, then messages asked for in all chats; non-trivial when what exists and was told is new",
  assumptions: ["A deletion in private chats and groups is told to the application only for messages the client was told of."],
  exhaustive: true,
  scenarios: (tier) => {
    const d = tier === "quick" ? -1 : 0;
    const s = (name: string, depth: number, events: string, over: Partial<Cfg> = {}) => scenario({ name, depth: depth + d, events: events.split(", "), ...over });
    return [
      s("common and own numbers", 4, "new A 5, new G 6, edit A 5, delete A 5 6, new C 5, edit C 5, delete C 5 3, get A 5 3, history A"),
      s("seen and reacted to", 4, "new C 5, react C 5, viewed C 5, forwarded C 5, edit C 5, new A 5, react A 5, react A 3, get A 3, delete C 5, restart"),
      s("scheduled messages", 4, "new A 5, new C 5, scheduled A new, scheduled A deleted, scheduled A listed, scheduled C listed, scheduled C deleted, delete A 5, edit A 5"),
      s("business messages", 4, "new A 5, new A 7, business A new, business A edited, business A deleted, delete A 5 7, edit A 5", { bot: true }),
      s("too much to tell", 4, "new A 5, new C 5, new C 7, get C 3, get A 3, silently A 5, silently A 3, silently C 5, silently C 3, delete A 3 5, restart"),
      s("replies", 4, "new A 5, new A 7 5, new A 7 3, new C 5, new C 7 3 A, new C 7 5, edit A 5, edit A 3, edit A 7, edit C 7, delete A 5, new D 5 5 C"),
      s("replies in memory", 4, "new A 5, new A 7 5, new C 5, react C 5, edit A 5, viewed C 5, edit C 5, delete A 5, get A 3, new C 7 5", { memory: true }),
      s("strangers", 4, "stranger C 5, stranger C 7, stranger G 6, stranger G 8, new C 9, new G 10, edit C 5, edit G 6, stranger D 5"),
      s("strangers and a bot", 4, "stranger C 5, stranger C 7, stranger G 6, stranger G 8, new C 9, new G 10, edit C 5, edit G 6, stranger D 5", { bot: true }),
      s("replies to what cannot be fetched", 3, "new A 5 3, new A 7 5, new C 5 3, new C 7 3 A, get A 3, edit A 5", { answers: ["right", "CHANNEL_PRIVATE", "MSG_ID_INVALID", "lost"], budget: 2 }),
    ];
  },
} satisfies CheckDef;
