// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { contextMethods } from "../lib/context_methods.ts";
import { chats, message, secretMessage, user } from "../lib/updates.ts";
import { Context } from "/repo/client/4_context.ts";

const me = user(1, { username: "me", isBot: true });

// What a method needs from the update, the method of the client it stands for, and how its arguments go there.
type Kind = "chat" | "user" | "message" | "sender" | "secretChat" | "inline" | "query" | "chat and user" | "business";
interface Alias {
  to: string;
  kind: Kind;
  /** The client's arguments from the identifiers and the method's arguments. */
  args?: (ids: any, a: any[]) => any[];
  business?: boolean;
}
const renamed: Record<string, [string, Kind, ((ids: any, a: any[]) => any[])?]> = {
  addAsContact: ["addContact", "user"],
  addMember: ["addChatMember", "chat"],
  addMembers: ["addChatMembers", "chat"],
  allowUnpaidMessages: ["allowUnpaidMessagesFromUser", "user"],
  disallowUnpaidMessages: ["disallowUnpaidMessagesFromUser", "user"],
  archive: ["archiveChat", "chat"],
  unarchive: ["unarchiveChat", "chat"],
  banSender: ["banChatMember", "sender", (i, a) => [i.chatId, i.senderId, ...a]],
  kickSender: ["kickChatMember", "sender", (i, a) => [i.chatId, i.senderId, ...a]],
  setSenderRights: ["setChatMemberRights", "sender", (i, a) => [i.chatId, i.senderId, ...a]],
  setMemberTag: ["setChatMemberTag", "sender", (i, a) => [i.chatId, i.senderId, ...a]],
  blockUser: ["blockUser", "user"],
  unblockUser: ["unblockUser", "user"],
  close: ["closeChat", "chat"],
  open: ["openChat", "chat"],
  delete: ["deleteMessage", "message", (i, a) => [i.chatId, i.messageId, ...a]],
  forward: ["forwardMessage", "message", (i, [to, p]) => [i.chatId, to, i.messageId, p]],
  gift: ["sendGift", "chat"],
  pin: ["pinMessage", "message", (i, [p]) => [i.chatId, i.messageId, { ...p, businessConnectionId: i.businessConnectionId }]],
  unpin: ["unpinMessage", "message", (i) => [i.chatId, i.messageId, { businessConnectionId: i.businessConnectionId }]],
  react: ["setReactions", "message", (i, a) => [i.chatId, i.messageId, ...a]],
  read: ["readMessages", "message", (i) => [i.chatId, i.messageId]],
  refundStarPayment: ["refundStarPayment", "user"],
  removeAsContact: ["deleteContact", "user"],
  transferOwnership: ["transferChatOwnership", "chat"],
  translateMessage: ["translateMessage", "chat", (i, [l, ...a]) => [l, i.chatId, ...a]],
  translateMessages: ["translateMessages", "chat", (i, [l, ...a]) => [l, i.chatId, ...a]],
  approveJoinRequest: ["approveJoinRequest", "chat and user", (i) => [i.chatId, i.userId]],
  declineJoinRequest: ["declineJoinRequest", "chat and user", (i) => [i.chatId, i.userId]],
  getBusinessConnection: ["getBusinessConnection", "business", (i) => [i.businessConnectionId]],
  transferGift: ["transferGift", "chat", (i, [g]) => [i.chatId, g, { businessConnectionId: i.businessConnectionId }]],
  searchMessages: ["searchMessages", "chat", (i, [p]) => [{ ...p, chatId: i.chatId }]],
  acceptSecretChat: ["acceptSecretChat", "secretChat"],
  endSecretChat: ["endSecretChat", "secretChat"],
  sendSecretScreenshotNotification: ["sendSecretScreenshotNotification", "secretChat"],
  answerCallbackQuery: ["answerCallbackQuery", "query"],
  answerGuestQuery: ["answerGuestQuery", "query"],
  answerInlineQuery: ["answerInlineQuery", "query"],
  answerPreCheckoutQuery: ["answerPreCheckoutQuery", "query"],
};
const methods: [string, number][] = Object.entries(contextMethods).flatMap(([n, l]) => l.split(" ").map((m) => [m, Number(n)] as [string, number]));

function aliasOf(m: string): Alias {
  const r = renamed[m];
  if (r) {
    const [to, kind, args] = r;
    const id: Partial<Record<Kind, string>> = { chat: "chatId", user: "userId", secretChat: "secretChatId", query: "queryId" };
    return { to, kind, args: args ?? ((i, a) => [i[id[kind]!], ...a]) };
  }
  if (m.startsWith("editInline")) return { to: m, kind: "inline", args: (i, a) => [i.inlineMessageId, ...a] };
  const business = m.startsWith("editMessage") || m.startsWith("editEphemeralMessage");
  return { to: m, kind: "chat", business, args: (i, a) => [i.chatId, ...a] };
}
const replyTo = (m: string) => m === "reply" ? "sendMessage" : m === "replySecret" ? "sendSecretMessage" : m === "replyDraft" ? "sendMessageDraft" : "send" + m.slice(5);

// --- updates and what they identify -----------------------------------------------------------------------------
interface State {
  name: string;
  update: any;
  ids: any;
}
const from = user(640), clicker = user(650), receiver = user(660);
function states(): State[] {
  const out: State[] = [];
  const ofMessage = (m: any) => ({ chatId: m.chat.id, messageId: m.id, userId: m.from.id, senderId: m.from.id, businessConnectionId: m.businessConnectionId, message: m });
  const variants: [string, any][] = [
    ["private", { chat: chats.private }],
    ["group", { chat: chats.group }],
    ["topic", { chat: chats.supergroup, threadId: 44 }],
    ["direct messages", { chat: chats.supergroup, directMessagesTopicId: 45 }],
    ["channel", { chat: chats.channel, from: chats.channel }],
    ["business", { chat: chats.private, businessConnectionId: "bc" }],
    ["business group", { chat: chats.group, businessConnectionId: "bc", threadId: 46 }],
    ["ephemeral", { chat: chats.group, receiver: user(1) }],
    ["outgoing ephemeral", { chat: chats.group, isOutgoing: true, from: user(1), receiver }],
    ["outgoing", { chat: chats.group, isOutgoing: true, from: user(1) }],
  ];
  for (const [n, over] of variants) {
    const m = message("text", { from, ...over });
    for (const type of ["message", "editedMessage", "scheduledMessage"]) out.push({ name: `${type}, ${n}`, update: { type, [type]: m }, ids: ofMessage(m) });
    // the user of a pressed button is the one who pressed it
    out.push({ name: `callbackQuery, ${n}`, update: { type: "callbackQuery", callbackQuery: { id: "cq", from: clicker, message: m, data: "d" } }, ids: { ...ofMessage(m), userId: clicker.id, queryId: "cq", loose: true } });
    out.push({ name: `guestQuery, ${n}`, update: { type: "guestQuery", guestQuery: { id: "gq", message: m } }, ids: { ...ofMessage(m), queryId: "gq", loose: true } });
  }
  out.push({ name: "callbackQuery, inline", update: { type: "callbackQuery", callbackQuery: { id: "cq", from: clicker, inlineMessageId: "im", data: "d" } }, ids: { userId: clicker.id, inlineMessageId: "im", queryId: "cq" } });
  out.push({ name: "chosenInlineResult, inline", update: { type: "chosenInlineResult", chosenInlineResult: { resultId: "r", from: clicker, query: "x", inlineMessageId: "im2" } }, ids: { userId: clicker.id, inlineMessageId: "im2" } });
  out.push({ name: "chosenInlineResult", update: { type: "chosenInlineResult", chosenInlineResult: { resultId: "r", from: clicker, query: "x" } }, ids: { userId: clicker.id } });
  out.push({ name: "inlineQuery", update: { type: "inlineQuery", inlineQuery: { id: "iq", from: clicker, query: "x", offset: "" } }, ids: { queryId: "iq", unclear: ["user"] } });
  out.push({ name: "preCheckoutQuery", update: { type: "preCheckoutQuery", preCheckoutQuery: { id: "pq", from: clicker } }, ids: { queryId: "pq", unclear: ["user"] } });
  out.push({ name: "joinRequest", update: { type: "joinRequest", joinRequest: { chat: chats.supergroup, from: clicker, date: 1 } }, ids: { chatId: chats.supergroup.id, userId: clicker.id } });
  for (const type of ["messageReactions", "messageReactionCount", "chatMember", "myChatMember", "newChat", "editedChat"]) {
    out.push({ name: type, update: { type, [type]: { chat: chats.supergroup, messageId: 5, from: clicker, user: clicker } }, ids: { chatId: chats.supergroup.id, unclear: ["user", "chat and user", "message", "reply"] } });
  }
  out.push({ name: "messageInteractions", update: { type: "messageInteractions", messageInteractions: { chatId: -707, messageId: 71, reactions: [], views: 1, forwards: 0 } }, ids: { chatId: -707, messageId: 71 } });
  out.push({ name: "messageInteractions, private", update: { type: "messageInteractions", messageInteractions: { chatId: 708, messageId: 72, reactions: [], views: 1, forwards: 0 } }, ids: { chatId: 708, messageId: 72 } });
  out.push({ name: "story", update: { type: "story", story: { id: 12, chat: chats.channel } }, ids: { chatId: chats.channel.id, storyId: 12 } });
  out.push({ name: "secretMessage", update: { type: "secretMessage", secretMessage: secretMessage("text", { id: "s9", chatId: 8805 }) }, ids: { secretChatId: 8805, secretMessageId: "s9" } });
  out.push({ name: "secretChat", update: { type: "secretChat", secretChat: { id: 8806, state: "active" } }, ids: { secretChatId: 8806 } });
  out.push({ name: "connectionState", update: { type: "connectionState", connectionState: "ready" }, ids: {} });
  out.push({ name: "update", update: { type: "update", update: { _: "updateConfig" } }, ids: {} });
  out.push({ name: "poll", update: { type: "poll", poll: {} }, ids: {} });
  return out;
}

function has(kind: Kind, to: string, ids: any, update: any): boolean {
  switch (kind) {
    case "chat":
      return ids.chatId !== undefined;
    case "user":
      return ids.userId !== undefined;
    case "chat and user":
      return ids.chatId !== undefined && ids.userId !== undefined;
    case "message":
      return ids.messageId !== undefined;
    case "sender":
      return ids.senderId !== undefined;
    case "secretChat":
      return ids.secretChatId !== undefined;
    case "inline":
      return ids.inlineMessageId !== undefined;
    case "business":
      return ids.businessConnectionId !== undefined;
    case "query":
      return update.type === to[6].toLowerCase() + to.slice(7);
  }
}

const clean = (x: any): any => {
  if (Array.isArray(x)) {
    const out = x.map(clean);
    while (out.length && out.at(-1) === undefined) out.pop();
    return out;
  }
  if (x === null || typeof x !== "object" || x.sentinel) return x;
  return Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined).map(([k, v]) => [k, clean(v)] as [string, any]).sort(([a], [b]) => a < b ? -1 : 1));
};
const same = (a: any, b: any): boolean => {
  if (a === b) return true;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object" || a.sentinel || b.sentinel) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => same(a[k], b[k]));
};
const show = (x: any) => JSON.stringify(x, (_, v) => v === undefined ? "undefined" : v?.sentinel ? `<${v.sentinel}>` : v);
const without = (o: any, ...keys: string[]) => o && typeof o === "object" && !o.sentinel ? Object.fromEntries(Object.entries(o).filter(([k]) => !keys.includes(k))) : o;

interface Call {
  name: string;
  args: any[];
}
async function callOf(update: any, m: string, args: any[], fails: boolean): Promise<{ calls: Call[]; end: string }> {
  const calls: Call[] = [];
  const client: any = new Proxy({}, {
    get: (_, name: string) => (...a: any[]) => {
      calls.push({ name, args: a });
      return fails ? Promise.reject(new Error("refused")) : Promise.resolve({ sentinel: "result", of: name });
    },
  });
  const ctx: any = new Context(client, me, update);
  let end: string;
  try {
    const r = await ctx[m](...args);
    end = calls.length === 1 && r?.of === calls[0].name ? "result" : "another result";
  } catch (err) {
    end = (err as Error).message === "refused" ? "refused" : "error";
  }
  return { calls, end };
}

function aliases(part: number, parts: number): Scenario {
  return {
    name: `methods, part ${part + 1}`,
    async run(ctl: Ctl) {
      const all = states();
      for (const [n, [m, len]] of methods.entries()) {
        if (n % parts !== part) continue;
        const secret = m.startsWith("replySecret"), reply = m.startsWith("reply");
        for (const s of all) {
          for (const given of ["all", "no last", "last is an object"]) {
            for (const quoted of reply ? [undefined, true, false] : [undefined]) {
              if (given === "no last" && (len === 0 || quoted !== undefined)) continue;
              const args: any[] = Array.from({ length: len }, (_, i) => ({ sentinel: `argument ${i}` }));
              // the last argument is often the optional parameters
              const takesParams = reply || given === "last is an object";
              if (given === "no last") args.pop();
              else if (takesParams && len) args[len - 1] = { x: { sentinel: "x" }, ...(quoted === undefined ? {} : { isQuoted: quoted }) };
              const before = show(args);
              for (const fails of [false, true]) {
                const { calls, end } = await callOf(s.update, m, args, fails);
                const what = `${m}(${before}) on ${s.name}`;
                const i = s.ids;
                let expected: Call | null, ignore: string[] = [];
                if (reply) {
                  const p = given === "no last" ? undefined : args[len - 1];
                  const first = given === "no last" ? args : args.slice(0, -1);
                  if (secret) {
                    expected = i.secretMessageId === undefined ? null : { name: replyTo(m), args: [i.secretChatId, ...first, { ...p, replyToMessageId: quoted ? i.secretMessageId : undefined }] };
                  } else {
                    if (i.unclear?.includes("reply")) continue;
                    const draft = m.endsWith("Draft");
                    let r: any;
                    if (i.storyId !== undefined) r = { replyTo: { type: "story", chatId: i.chatId, storyId: i.storyId } };
                    else if (i.message?.receiver) r = { receiverId: i.message.isOutgoing ? i.message.receiver.id : i.message.from.id, replyTo: i.message.isOutgoing ? undefined : { type: "ephemeralMessage", messageId: i.messageId }, callbackQueryId: s.update.type === "callbackQuery" ? i.queryId : undefined };
                    else r = { messageThreadId: i.message?.threadId, directMessagesTopicId: i.message?.directMessagesTopicId, replyTo: (quoted ?? i.chatId < 0) ? { type: "message", messageId: i.messageId } : undefined };
                    if (!draft) r.businessConnectionId = i.businessConnectionId;
                    expected = i.chatId === undefined || i.messageId === undefined && i.storyId === undefined ? null : { name: replyTo(m), args: [i.chatId, ...first, { ...p, ...r }] };
                    if (i.loose) ignore = ["messageThreadId", "directMessagesTopicId"];
                    if (draft) ignore.push("replyTo", "receiverId", "callbackQueryId", "businessConnectionId", "directMessagesTopicId");
                  }
                  ignore.push("isQuoted");
                } else {
                  const a = aliasOf(m);
                  if (i.unclear?.includes(a.kind)) continue;
                  if (!has(a.kind, a.to, i, s.update)) expected = null;
                  else if (m === "delete" && i.message?.receiver) expected = { name: "deleteEphemeralMessage", args: [i.chatId, i.message.isOutgoing ? i.message.receiver.id : i.message.from.id, i.messageId] };
                  else {
                    let x = args;
                    if (a.business && i.businessConnectionId !== undefined) {
                      if (given === "all") continue;
                      x = given === "no last" ? [...args, { businessConnectionId: i.businessConnectionId }] : [...args.slice(0, -1), { ...args.at(-1), businessConnectionId: i.businessConnectionId }];
                    }
                    if (m === "searchMessages" || m === "pin") {
                      if (given === "all") continue;
                    }
                    expected = { name: a.to, args: a.args!(i, x) };
                  }
                }
                if (expected === null) {
                  check(calls.length === 0 && end === "error", () => `${what}: ${end}, calls ${show(calls)}`, `${m} is not refused on ${s.name}`);
                } else {
                  check(calls.length === 1, () => `${what}: ${end}, calls ${show(calls)}`, `${m} makes ${calls.length} calls on ${s.name}`);
                  const cut = (x: any[]) => clean(clean(x).map((v: any, k: number, l: any[]) => k === l.length - 1 ? without(v, ...ignore) : v).map((v: any, k: number, l: any[]) => k === l.length - 1 && v && typeof v === "object" && !v.sentinel && !Object.keys(v).length ? undefined : v));
                  const want = cut(expected.args), got = cut(calls[0].args);
                  check(calls[0].name === expected.name && same(want, got), () => `${what}: calls ${calls[0].name}(${show(got)}) instead of ${expected!.name}(${show(want)})`, `${m} on ${s.name} calls something else`);
                  check(end === (fails ? "refused" : "result") || !fails && end === "another result" && m === "x", () => `${what}: ends with ${end}`, `${m} ends with ${end}`);
                }
                check(show(args) === before, () => `${what} changes its arguments to ${show(args)}`, `${m} changes its arguments`);
                ctl.count("calls");
              }
            }
          }
        }
        ctl.count("methods");
      }
      ctl.step("all");
      ctl.outcome(`${part}`);
    },
  };
}

const def: CheckDef = {
  id: "C02",
  level: "model_checking",
  rule: "every method of Context, on every listed kind of update, with and without the optional parameters, quoting wanted, unwanted or not said, and the client succeeding or failing",
  assumptions: [
    "Not specified: methods on updates where it is not clear what is meant (the user of a membership change), the thread of a reply to a pressed button, and what else drafts carry.",
  ],
  exhaustive: true,
  scenarios() {
    return Array.from({ length: 8 }, (_, i) => aliases(i, 8));
  },
};
export default def;
