// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Scenario } from "../lib/explore.ts";
import { SELF } from "../lib/client.ts";
import { ALICE, BOB, CHANNEL, type Exp, GROUP, inputUser, type Opt, scenario, type Server, type Spec } from "../lib/calls.ts";
import { FileType, serializeFileId } from "/repo/types/_file_id.ts";
import { apiCodec } from "../lib/rpc.ts";

const text = new TextEncoder();
const o = (key: string, v: any, set?: (x: Exp) => void, more: Partial<Opt> = {}): Opt => ({ key, v, set, ...more });
const arg = (key: string, v: any, set?: (x: Exp) => void): Opt => ({ key, v, set, arg: true });
const put = (...fields: any[]) => (x: Exp) => void Object.assign(x.req, ...fields);
const bad = (x: Exp) => void (x.invalid = true);
/** true and false of a parameter that is a flag */
const flag = (key: string, f: string, only?: "bot" | "user"): Opt[] => [o(key, true, put({ [f]: true }), { only }), o(key, false, undefined, { only })];

// ---- what is said about text
const E = (type: string, more: any = {}) => ({ type, offset: 0, length: 2, ...more });
const T = (_: string, more: any = {}) => ({ _: "messageEntity" + _, offset: 0, length: 2, ...more });
const mentioned = { _: "inputMessageEntityMentionName", offset: 0, length: 2, user_id: inputUser(BOB) };
const ENTITIES: [any, any][] = [
  [E("bold"), T("Bold")],
  [E("mention"), T("Mention")],
  [E("hashtag"), T("Hashtag")],
  [E("botCommand"), T("BotCommand")],
  [E("url"), T("Url")],
  [E("email"), T("Email")],
  [E("italic"), T("Italic")],
  [E("code"), T("Code")],
  [E("pre", { language: "ts" }), T("Pre", { language: "ts" })],
  [E("textLink", { url: "https://e.org" }), T("TextUrl", { url: "https://e.org" })],
  [E("textLink", { url: "tg://user?id=12" }), mentioned],
  [E("textMention", { userId: 12 }), mentioned],
  [E("cashtag"), T("Cashtag")],
  [E("phoneNumber"), T("Phone")],
  [E("underline"), T("Underline")],
  [E("strikethrough"), T("Strike")],
  [E("blockquote"), T("Blockquote")],
  [E("blockquote", { collapsible: true }), T("Blockquote", { collapsed: true })],
  [E("bankCard"), T("BankCard")],
  [E("spoiler"), T("Spoiler")],
  [E("customEmoji", { customEmojiId: "5000000000000000001" }), T("CustomEmoji", { document_id: 5000000000000000001n })],
];
/** text, entities and the parse mode */
const worded = (names: { text: string; entities: string; mode: string }, isArg: boolean, all: boolean, where: (x: Exp) => any, field: string): Opt[] => [
  ...(all ? ENTITIES : ENTITIES.slice(0, 2)).map(([e, t]) => o(names.entities, [e], (x) => void (where(x).entities = [...(where(x).entities ?? []), t]))),
  // as long as what there is after the end has been cut
  { ...o(names.text, "hi  \n", (x) => void (where(x)[field] = "hi")), arg: isArg },
  { ...o(names.text, "<i>it</i>s", (x) => {
    if (x.p[names.mode] !== "HTML") where(x)[field] = "<i>it</i>s";
    else where(x)[field] = "its", where(x).entities = [...(where(x).entities ?? []), T("Italic")];
  }), arg: isArg },
  o(names.mode, "HTML"),
  o(names.mode, null),
  ...(all ? [o(names.entities, [E("bold", { length: 9 })], (x) => void (x.skip = true))] : []),
];

// ---- what messages are sent with
const style = { background: "primary", customEmojiId: "77" }, styleTl = { _: "keyboardButtonStyle", bg_primary: true, icon: 77n };
const INLINE: [any, any][] = [
  [{ type: "url", url: "https://e.org" }, { _: "keyboardButtonUrl", url: "https://e.org" }],
  [{ type: "url", url: "https://e.org", style }, { _: "keyboardButtonUrl", url: "https://e.org", style: styleTl }],
  [{ type: "url", url: "https://e.org", style: { background: "danger" } }, { _: "keyboardButtonUrl", url: "https://e.org", style: { _: "keyboardButtonStyle", bg_danger: true } }],
  [{ type: "url", url: "https://e.org", style: { background: "success" } }, { _: "keyboardButtonUrl", url: "https://e.org", style: { _: "keyboardButtonStyle", bg_success: true } }],
  [{ type: "callbackData", callbackData: "då" }, { _: "keyboardButtonCallback", data: text.encode("då") }],
  [{ type: "miniApp", url: "https://e.org" }, { _: "keyboardButtonWebView", url: "https://e.org" }],
  [{ type: "loginUrl", loginUrl: { url: "https://e.org" } }, { _: "inputKeyboardButtonUrlAuth", url: "https://e.org", bot: { _: "inputUserSelf" } }],
  [{ type: "loginUrl", loginUrl: { url: "https://e.org", forwardText: "f", botUsername: "alice", requestWriteAccess: true } }, { _: "inputKeyboardButtonUrlAuth", url: "https://e.org", fwd_text: "f", request_write_access: true, bot: inputUser(ALICE) }],
  [{ type: "switchInlineQuery", inlineQuery: "q" }, { _: "keyboardButtonSwitchInline", query: "q" }],
  [{ type: "switchInlineQueryCurrentChat", inlineQuery: "q" }, { _: "keyboardButtonSwitchInline", query: "q", same_peer: true }],
  ...(["User", "Bot", "Group", "Channel"] as const).map((k): [any, any] => [
    { type: "switchInlineQueryChosenChats", inlineQuery: "q", ["is" + k]: true },
    { _: "keyboardButtonSwitchInline", query: "q", peer_types: { User: ["PM"], Bot: ["SameBotPM", "BotPM"], Group: ["Chat", "Megagroup"], Channel: ["Broadcast"] }[k].map((t) => ({ _: "inlineQueryPeerType" + t })) },
  ]),
  [{ type: "callbackGame" }, { _: "keyboardButtonGame" }],
  [{ type: "pay" }, { _: "keyboardButtonBuy" }],
  [{ type: "copy", textToCopy: "c" }, { _: "keyboardButtonCopy", copy_text: "c" }],
];
const peer = (peer_type: any) => ({ _: "keyboardButtonRequestPeer", button_id: 4, max_quantity: 1, peer_type });
const rights = { canDeleteMessages: true, canInviteUsers: true, canManageLinkedChats: true }, rightsTl = { _: "chatAdminRights", delete_messages: true, invite_users: true, manage_linked_peers: true };
const KEYS: [any, any][] = [
  [{ type: "text", style }, { _: "keyboardButton", style: styleTl }],
  [{ type: "requestUser", requestId: 4 }, peer({ _: "requestPeerTypeUser" })],
  [{ type: "requestUser", requestId: 4, isBot: true, isPremium: false }, peer({ _: "requestPeerTypeUser", bot: true, premium: "no" })],
  [{ type: "requestUser", requestId: 4, isBot: false, isPremium: true }, peer({ _: "requestPeerTypeUser", bot: "no", premium: true })],
  [{ type: "requestChat", requestId: 4, isChannel: false, isForum: true, isOwner: true, isBotMember: true }, peer({ _: "requestPeerTypeChat", forum: true, creator: true, bot_participant: true })],
  [{ type: "requestChat", requestId: 4, isChannel: false, hasUsername: true, userAdministratorRights: rights, botAdministratorRights: { canPinMessages: true } }, peer({ _: "requestPeerTypeChat", has_username: true, user_admin_rights: rightsTl, bot_admin_rights: { _: "chatAdminRights", pin_messages: true } })],
  [{ type: "requestChat", requestId: 4, isChannel: true, isOwner: true, hasUsername: true }, peer({ _: "requestPeerTypeBroadcast", creator: true, has_username: true })],
  [{ type: "requestChat", requestId: 4, isChannel: true, userAdministratorRights: rights, botAdministratorRights: { canPinMessages: true } }, peer({ _: "requestPeerTypeBroadcast", user_admin_rights: rightsTl, bot_admin_rights: { _: "chatAdminRights", pin_messages: true } })],
  [{ type: "requestManagedBot", requestId: 4, suggestedName: "n", suggestedUsername: "u" }, peer({ _: "requestPeerTypeCreateBot", bot_managed: true, suggested_name: "n", suggested_username: "u" })],
  [{ type: "requestContact" }, { _: "keyboardButtonRequestPhone" }],
  [{ type: "requestLocation" }, { _: "keyboardButtonRequestGeoLocation" }],
  [{ type: "requestPoll" }, { _: "keyboardButtonRequestPoll" }],
  [{ type: "requestPoll", pollType: "quiz" }, { _: "keyboardButtonRequestPoll", quiz: true }],
  [{ type: "requestPoll", pollType: "regular" }, { _: "keyboardButtonRequestPoll", quiz: "no" }],
  [{ type: "miniApp", url: "https://e.org" }, { _: "keyboardButtonWebView", url: "https://e.org" }],
];
const titled = (l: [any, any][]): [any, any][] => l.map(([b, t], i) => [{ text: `b${i}`, ...b }, { text: `b${i}`, ...t }]);
const inlineRow = titled(INLINE.slice(0, 2));
const MARKUP: [any, any][] = [
  [{ type: "inlineKeyboard", inlineKeyboard: [inlineRow.map((b) => b[0]), [inlineRow[0][0]]] }, { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: inlineRow.map((b) => b[1]) }, { _: "keyboardButtonRow", buttons: [inlineRow[0][1]] }] }],
];
const MARKUPS: [any, any][] = [
  ...titled(INLINE).map(([b, t]): [any, any] => [{ type: "inlineKeyboard", inlineKeyboard: [[b]] }, { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: [t] }] }]),
  ...titled(KEYS).map(([b, t]): [any, any] => [{ type: "keyboard", keyboard: [[b]] }, { _: "replyKeyboardMarkup", rows: [{ _: "keyboardButtonRow", buttons: [t] }] }]),
  ...([["isResized", "resize"], ["isOneTime", "single_use"], ["isSelective", "selective"], ["isPersistent", "persistent"]]).map(([k, f]): [any, any] => [{ type: "keyboard", keyboard: [[{ type: "text", text: "x" }], [{ type: "text", text: "y" }]], [k]: true }, { _: "replyKeyboardMarkup", [f]: true, rows: ["x", "y"].map((t) => ({ _: "keyboardButtonRow", buttons: [{ _: "keyboardButton", text: t }] })) }]),
  [{ type: "keyboard", keyboard: [], inputFieldPlaceholder: "p" }, { _: "replyKeyboardMarkup", rows: [], placeholder: "p" }],
  [{ type: "removeKeyboard" }, { _: "replyKeyboardHide" }],
  [{ type: "removeKeyboard", isSelective: true }, { _: "replyKeyboardHide", selective: true }],
  [{ type: "forceReply" }, { _: "replyKeyboardForceReply" }],
  [{ type: "forceReply", isSelective: true, inputFieldPlaceholder: "p" }, { _: "replyKeyboardForceReply", selective: true, placeholder: "p" }],
];
/** Bool fields that are false. */
const no = (v: any): any => v && typeof v === "object" && !(v instanceof Uint8Array) ? Array.isArray(v) ? v.map(no) : Object.fromEntries(Object.entries(v).map(([k, x]) => [k, x === "no" ? false : no(x)])) : v;
export const markup = (l = MARKUP): Opt[] => l.map(([m, t]) => o("replyMarkup", m, put({ reply_markup: no(t) }), { only: "bot" }));

const REPLY: any[] = [
  { type: "message", messageId: 5 },
  { type: "message", messageId: 5, quote: { text: "quoted", offset: 3, entities: [E("bold")] } },
  { type: "message", messageId: 5, pollOptionIndex: 0 },
  { type: "message", messageId: 5, checklistItemId: 2 },
  { type: "ephemeralMessage", messageId: 6 },
  { type: "story", chatId: 12, storyId: 8 },
];
export const place: Opt[] = [...REPLY.map((r) => o("replyTo", r)), o("messageThreadId", 7), o("directMessagesTopicId", 12)];
/** Where the message goes. */
export function placed(x: Exp) {
  const { replyTo: r, messageThreadId: t, directMessagesTopicId: d } = x.p;
  if (t && d) x.skip = true;
  if (!r) {
    if (t) x.req.reply_to = { _: "inputReplyToMessage", reply_to_msg_id: 7, top_msg_id: 7 };
    if (d) x.req.reply_to = { _: "inputReplyToMonoForum", monoforum_peer_id: BOB.input };
  } else if (r.type === "message") {
    x.req.reply_to = {
      _: "inputReplyToMessage",
      reply_to_msg_id: 5,
      ...(t ? { top_msg_id: 7 } : {}),
      ...(d ? { monoforum_peer_id: BOB.input } : {}),
      ...(r.quote ? { quote_text: "quoted", quote_offset: 3, quote_entities: [T("Bold")] } : {}),
      ...(r.pollOptionIndex !== undefined ? { poll_option: text.encode("0") } : {}),
      ...(r.checklistItemId !== undefined ? { todo_item_id: 2 } : {}),
    };
  } else {
    if (t || d) x.skip = true;
    x.req.reply_to = r.type === "story" ? { _: "inputReplyToStory", peer: BOB.input, story_id: 8 } : { _: "inputReplyToEphemeralMessage", id: 6 };
  }
}
export const SEND: Opt[] = [
  ...flag("isSilent", "silent"),
  ...flag("isContentProtected", "noforwards"),
  ...place,
  o("sendAs", CHANNEL.id, put({ send_as: CHANNEL.input }), { only: "user" }),
  o("effectId", "5000000000000000077", put({ effect: 5000000000000000077n })),
  o("sendAt", 2000000000, put({ schedule_date: 2000000000 }), { only: "user" }),
  ...flag("isPaidBroadcast", "allow_paid_floodskip", "bot"),
];
export const BUSINESS: Opt[] = [o("businessConnectionId", "bc", (x) => void (x.business = "bc"), { only: "bot" })];
const RECEIVER: Opt[] = [o("receiverId", 12), o("callbackQueryId", "99")];
/** Messages only one user sees are sent with what such messages have. */
function ephemeral(x: Exp) {
  if (x.p.receiverId === undefined) return;
  if (!x.bot || x.business) x.skip = true;
  const { peer, message, media, entities, reply_to, reply_markup, random_id } = x.req;
  x.req = { _: "ephemeral.sendMessage", peer, message, media, entities, reply_to, reply_markup, random_id, receiver_id: inputUser(BOB), ...(x.p.callbackQueryId ? { query_id: 99n } : {}) };
}
const finish = (x: Exp) => {
  placed(x);
  ephemeral(x);
};
export const noEphemeral = (x: Exp) => {
  if (x.p.receiverId !== undefined) x.invalid = true;
  placed(x);
};

// ---- what the server makes of it
export function updates(list: any[], x: Exp, s: Server) {
  void x, s;
  return { _: "updates", updates: list, users: [{ _: "user", self: true, id: SELF, access_hash: 777001n, first_name: "me" }], chats: [], date: 1, seq: 0 };
}
export function made(x: Exp, s: Server, q: any, media: any, edited?: number): any {
  const id = edited ?? s.next++;
  s.made.push({ id });
  if (q._.startsWith("ephemeral.")) {
    return { _: edited ? "updateEditEphemeralMessage" : "updateNewEphemeralMessage", message: { _: "ephemeralMessage", out: true, id, from_id: { _: "peerUser", user_id: SELF }, peer_id: x.chat.peer, receiver_id: 12n, date: 5, message: q.message || (media ? "" : "x"), media } };
  }
  const message = { _: "message", out: true, id, from_id: { _: "peerUser", user_id: SELF }, peer_id: x.chat.peer, date: 5, message: q.message || (media ? "" : "x"), media, ...(q.schedule_date ? { from_scheduled: true } : {}) };
  if (x.business) return { _: edited ? "updateBotEditBusinessMessage" : "updateBotNewBusinessMessage", connection_id: x.business, message, qts: 2 };
  if (q.schedule_date) return { _: "updateNewScheduledMessage", message };
  const pts = id - 198;
  return { _: `update${edited ? "Edit" : "New"}${x.chat === CHANNEL ? "Channel" : ""}Message`, message, pts, pts_count: 1 };
}
export const one = (media?: any) => (q: any, x: Exp, s: Server) => {
  const m = made(x, s, q, typeof media === "function" ? media(q, x) : media);
  return updates([...(m.message._ === "message" ? [{ _: "updateMessageID", id: m.message.id, random_id: q.random_id }] : []), m], x, s);
};
export const edit = (id: number, media?: any) => (q: any, x: Exp, s: Server) => updates([made(x, s, q, media, id)], x, s);
/** The call gives the message the server made. */
export const gives = (type: string) => (v: any, x: Exp, s: Server) => {
  check(v && v.id === s.made.at(-1).id && v.chat?.id === x.chat.id && v.type === type && v.isOutgoing === true, () => `the call gives ${JSON.stringify(v)} instead of the message ${s.made.at(-1).id} of type ${type} of ${x.chat.name}`, "the message given");
  if (x.req.schedule_date) check(v.isScheduled === true, () => `a scheduled message is given as ${JSON.stringify(v)}`, "the message given");
  if (x.business) check(v.businessConnectionId === x.business, () => `the message given says that its business connection is ${v.businessConnectionId}`, "the message given");
  if (x.req._ === "ephemeral.sendMessage") check(v.receiver?.id === 12, () => `the message given says that its receiver is ${v.receiver?.id}`, "the message given");
};
const geo = { _: "geoPoint", lat: 1.5, long: 2.5, access_hash: 1n };
const doc = (id: bigint, mime_type: string, ...attributes: any[]) => ({ _: "document", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]), date: 1, mime_type, size: 5n, dc_id: 2, attributes });
const docMedia = (id: bigint, mime: string, ...attributes: any[]) => ({ _: "messageMediaDocument", document: doc(id, mime, ...attributes) });
const photo = (id: bigint) => ({ _: "photo", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]), date: 1, sizes: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 5 }], dc_id: 2 });
const photoMedia = (id: bigint) => ({ _: "messageMediaPhoto", photo: photo(id) });
const video = { _: "documentAttributeVideo", w: 1, h: 1, duration: 1 };
const NAME = { _: "documentAttributeFilename", file_name: "n" };

// ---- files
export const KINDS: Record<string, { method: string; type: any; name: string; mime: string; media: any; spoil?: boolean; url?: boolean; stars?: boolean; ttl?: boolean; opts: [string, any][]; attributes: (p: any) => any[] }> = {
  document: { method: "sendDocument", type: FileType.Document, name: "x.pdf", mime: "application/pdf", media: docMedia(31n, "application/pdf", NAME), opts: [], attributes: () => [] },
  video: {
    method: "sendVideo",
    type: FileType.Video,
    name: "x.mp4",
    mime: "video/mp4",
    media: docMedia(32n, "video/mp4", video),
    spoil: true,
    stars: true,
    ttl: true,
    opts: [["duration", 3], ["width", 4], ["height", 5], ["isStreamingSupported", true], ["isStreamingSupported", false]],
    attributes: (p) => [{ _: "documentAttributeVideo", duration: p.duration ?? 0, w: p.width ?? 0, h: p.height ?? 0, supports_streaming: p.isStreamingSupported || undefined }],
  },
  animation: {
    method: "sendAnimation",
    type: FileType.Animation,
    name: "x.gif",
    mime: "image/gif",
    media: docMedia(33n, "video/mp4", { _: "documentAttributeAnimated" }, video),
    spoil: true,
    opts: [["duration", 3], ["width", 4], ["height", 5]],
    attributes: (p) => [{ _: "documentAttributeAnimated" }, { _: "documentAttributeVideo", supports_streaming: true, duration: p.duration ?? 0, w: p.width ?? 0, h: p.height ?? 0 }],
  },
  audio: {
    method: "sendAudio",
    type: FileType.Audio,
    name: "x.mp3",
    mime: "audio/mpeg",
    media: docMedia(34n, "audio/mpeg", { _: "documentAttributeAudio", duration: 1 }),
    opts: [["duration", 3], ["performer", "p"], ["title", "t"]],
    attributes: (p) => [{ _: "documentAttributeAudio", duration: p.duration ?? 0, performer: p.performer, title: p.title }],
  },
  voice: { method: "sendVoice", type: FileType.VoiceNote, name: "x.ogg", mime: "audio/ogg", media: docMedia(35n, "audio/ogg", { _: "documentAttributeAudio", voice: true, duration: 1 }), opts: [["duration", 3]], attributes: (p) => [{ _: "documentAttributeAudio", voice: true, duration: p.duration ?? 0 }] },
  videoNote: {
    method: "sendVideoNote",
    type: FileType.VideoNote,
    name: "x.mp4",
    mime: "video/mp4",
    media: docMedia(36n, "video/mp4", { ...video, round_message: true }),
    url: false,
    opts: [["duration", 3], ["length", 4]],
    attributes: (p) => [{ _: "documentAttributeVideo", round_message: true, duration: p.duration ?? 0, w: p.length ?? 0, h: p.length ?? 0 }],
  },
  sticker: {
    method: "sendSticker",
    type: FileType.Sticker,
    name: "x.webp",
    mime: "image/webp",
    media: docMedia(37n, "image/webp", { _: "documentAttributeSticker", alt: "😀", stickerset: { _: "inputStickerSetEmpty" } }),
    opts: [["emoji", "😀"]],
    attributes: (p) => [{ _: "documentAttributeSticker", alt: p.emoji ?? "", stickerset: { _: "inputStickerSetEmpty" } }],
  },
};
export const REF = new Uint8Array([7, 8, 9]);
export const fileId = (type: any, id = 5000000000000000021n) => serializeFileId({ type, dcId: 2, fileReference: REF, location: type === FileType.Photo ? { type: "photo", id, accessHash: -22n, source: { type: 1, fileType: type, thumbnailType: 120 } } : { type: "common", id, accessHash: -22n } } as any);
const known = (id = 5000000000000000021n) => ({ id, access_hash: -22n, file_reference: REF });
const BYTES = new Uint8Array([65, 66, 67, 68]), THUMB = new Uint8Array([84, 85, 86, 87]);
const uploaded = (name: string, b = BYTES) => ({ _: "inputFile", id: "file " + [...b].join(","), parts: 1, name, md5_checksum: "" });
/** What a file becomes. `p`: what is said about it */
function fileMedia(kind: string, file: any, p: any): any {
  const spoiler = p.isSpoiler || undefined, ttl_seconds = p.selfDestruct === "afterOpen" ? 2147483647 : p.selfDestruct;
  if (kind === "photo") {
    if (file instanceof Uint8Array) return { _: "inputMediaUploadedPhoto", file: uploaded(p.fileName ?? "file.jpg"), spoiler, ttl_seconds };
    if (/^https?:/.test(file)) return { _: "inputMediaPhotoExternal", url: file, spoiler, ttl_seconds };
    return { _: "inputMediaPhoto", id: { _: "inputPhoto", ...known() }, spoiler, ttl_seconds };
  }
  const k = KINDS[kind];
  if (file instanceof Uint8Array) {
    return {
      _: "inputMediaUploadedDocument",
      file: uploaded(p.fileName),
      thumb: p.thumbnail ? uploaded("file", THUMB) : undefined,
      spoiler,
      ttl_seconds,
      attributes: [{ _: "documentAttributeFilename", file_name: p.fileName }, ...k.attributes(p)],
      mime_type: p.mimeType ?? k.mime,
      force_file: kind === "document" || undefined,
    };
  }
  if (/^https?:/.test(file)) return { _: "inputMediaDocumentExternal", url: file, spoiler, ttl_seconds };
  return { _: "inputMediaDocument", id: { _: "inputDocument", ...known() }, spoiler, ttl_seconds, query: kind === "sticker" ? p.emoji : undefined };
}
const CAPTION = (all = false) => [o("caption", "cap", (x) => void (x.req.message = "cap")), ...worded({ text: "caption", entities: "captionEntities", mode: "parseMode" }, false, all, (x) => x.req, "message")];
/** entities are those of a caption */
const captioned = (x: Exp) => {
  if (x.p.caption === undefined && x.p.captionEntities) x.req.entities = undefined;
};
const sendMedia = (x: Exp, media: any) => ({ _: "messages.sendMedia", peer: x.chat.input, message: "", random_id: 1n, media });
const DESTRUCT = [o("selfDestruct", 30), o("selfDestruct", "afterOpen"), o("selfDestruct", 0, bad), o("selfDestruct", -1, bad)];
const STARS = [o("starCount", 5), o("starCount", 0, bad), o("starCount", -5, bad)];

function files(bot: boolean): Spec[] {
  const list: Spec[] = [];
  for (const [kind, k] of Object.entries({ ...KINDS, photo: { method: "sendPhoto", type: FileType.Photo, name: "x.jpg", mime: "", media: photoMedia(38n), spoil: true, stars: true, ttl: true, url: true, opts: [] as [string, any][], attributes: () => [] } })) {
    const isPhoto = kind === "photo";
    list.push({
      name: k.method,
      bot,
      chats: kind === "video" || kind === "photo" ? undefined : [ALICE, CHANNEL],
      call: (c, x) => c[k.method](x.chat.id, x.a.file ?? fileId(k.type), x.p),
      req: (x) => sendMedia(x, null),
      opts: [
        arg("file", "https://e.org/f", k.url === false ? bad : undefined),
        arg("file", BYTES),
        arg("file", fileId(k.type === FileType.Photo ? FileType.Document : FileType.Photo), bad),
        o("fileName", k.name),
        ...(isPhoto ? [] : [o("thumbnail", THUMB), ...(kind === "document" ? [o("mimeType", "a/b")] : [])]),
        ...k.opts.map(([key, v]) => o(key, v)),
        ...(k.spoil ? [o("isSpoiler", true), o("isSpoiler", false)] : []),
        ...(k.ttl ? DESTRUCT : []),
        ...(k.stars ? STARS : []),
        ...(kind === "sticker" ? [] : CAPTION(isPhoto)),
        ...SEND.filter((x) => isPhoto || kind === "video" || !/replyTo|directMessages/.test(x.key)),
        ...markup(),
        ...BUSINESS,
        ...RECEIVER,
      ],
      finish: (x) => {
        const f = x.a.file ?? fileId(k.type);
        // how a file is called when nobody says is decided elsewhere
        if (f instanceof Uint8Array && !x.p.fileName && !isPhoto) x.p.fileName = k.name;
        if (x.invalid) return;
        let media = fileMedia(kind, f, x.p);
        if (x.p.starCount) media = { _: "inputMediaPaidMedia", stars_amount: 5n, extended_media: [media] };
        x.req.media = media;
        captioned(x);
        finish(x);
      },
      answer: one(k.media),
      result: gives(kind),
    });
  }
  list.push({
    name: "sendLivePhoto",
    bot,
    chats: [ALICE, CHANNEL],
    call: (c, x) => c.sendLivePhoto(x.chat.id, x.a.photo ?? fileId(FileType.Photo), x.a.video ?? fileId(FileType.Video, 41n), x.p),
    req: (x) => sendMedia(x, null),
    opts: [arg("photo", BYTES), arg("video", BYTES), ...CAPTION(), o("isSpoiler", true), ...DESTRUCT, ...STARS, ...SEND.filter((x) => !/replyTo|directMessages/.test(x.key)), ...markup(), ...BUSINESS],
    finish: (x) => {
      if (x.a.video && x.a.photo) x.skip = true;
      let v: any = { _: "inputDocument", ...known(41n) };
      if (x.a.video && !x.invalid) {
        x.before = [{ _: "messages.uploadMedia", peer: x.chat.input, media: { _: "inputMediaUploadedDocument", file: uploaded("video.mp4"), attributes: [video0], mime_type: "video/mp4" } }];
        v = { _: "inputDocument", id: 32n, access_hash: 33n, file_reference: new Uint8Array([1, 2]) };
      }
      // starCount and reply markup are looked at after the video has been uploaded
      let media = fileMedia("photo", x.a.photo ?? fileId(FileType.Photo), x.p);
      media = { ...media, live_photo: true, video: v };
      if (x.p.starCount) media = { _: "inputMediaPaidMedia", stars_amount: 5n, extended_media: [media] };
      x.req.media = media;
      if (x.invalid && x.a.video) x.skip = true;
      captioned(x);
      finish(x);
    },
    other: (q) => q._ === "messages.uploadMedia" ? KINDS.video.media : undefined,
    answer: one({ ...photoMedia(38n), live_photo: true, video: doc(39n, "video/mp4", video) }),
    result: gives("livePhoto"),
  });
  return list;
}
const video0 = { _: "documentAttributeVideo", duration: 0, w: 0, h: 0 };

// ---- other kinds of messages
const PREVIEWS: Opt[] = [
  { url: "https://e.org" },
  { url: "https://e.org", mediaSize: "large", isAboveText: true },
  { url: "https://e.org", mediaSize: "small" },
  { isDisabled: true },
  { isDisabled: true, url: "https://e.org" },
  { isAboveText: true },
].map((v) => o("linkPreview", { type: "input", ...v }));
function preview(x: Exp, editing = false) {
  const l = x.p.linkPreview;
  if (!l) return;
  if (l.isAboveText) x.req.invert_media = true;
  if (l.isDisabled) x.req.no_webpage = true;
  else if (l.url) {
    if (!editing) x.req._ = "messages.sendMedia";
    x.req.media = { _: "inputMediaWebPage", url: l.url, force_large_media: l.mediaSize === "large" || undefined, force_small_media: l.mediaSize === "small" || undefined };
  }
}
const WORDS = (all: boolean) => worded({ text: "text", entities: "entities", mode: "parseMode" }, true, all, (x) => x.req, "message");

const pollMedia = (q: any) => ({ _: "messageMediaPoll", poll: { _: "poll", id: 5n, hash: 0n, question: { _: "textWithEntities", text: "q", entities: [] }, answers: (q.media?.poll?.answers ?? []).map((_: any, i: number) => ({ _: "pollAnswer", text: { _: "textWithEntities", text: `o${i}`, entities: [] }, option: new Uint8Array([i]) })) }, results: { _: "pollResults" } });
const worded2 = (t: string, ...entities: any[]) => ({ _: "textWithEntities", text: t, entities });
const POLLMEDIA: [any, (x: Exp) => any][] = [
  [{ type: "photo", photo: fileId(FileType.Photo) }, () => ({ _: "inputMediaPhoto", id: { _: "inputPhoto", ...known() } })],
  [{ type: "photo", photo: fileId(FileType.Photo), isSpoiler: true }, () => ({ _: "inputMediaPhoto", spoiler: true, id: { _: "inputPhoto", ...known() } })],
  [{ type: "photo", photo: BYTES, isSpoiler: true }, (x) => {
    x.before.push({ _: "messages.uploadMedia", peer: x.chat.input, media: { _: "inputMediaUploadedPhoto", file: uploaded("file.jpg"), spoiler: true } });
    return { _: "inputMediaPhoto", spoiler: true, id: { _: "inputPhoto", id: 38n, access_hash: 39n, file_reference: new Uint8Array([1, 2]) } };
  }],
  ...(["video", "animation"] as const).map((t): [any, (x: Exp) => any] => [{ type: t, [t]: fileId(KINDS[t].type), isSpoiler: true }, () => ({ _: "inputMediaDocument", spoiler: true, id: { _: "inputDocument", ...known() } })]),
  [{ type: "sticker", sticker: fileId(FileType.Sticker) }, () => ({ _: "inputMediaDocument", id: { _: "inputDocument", ...known() } })],
  [{ type: "location", latitude: 1.5, longitude: 2.5, horizontalAccuracy: 4 }, () => ({ _: "inputMediaGeoPoint", geo_point: { _: "inputGeoPoint", lat: 1.5, long: 2.5, accuracy_radius: 4 } })],
  [{ type: "venue", latitude: 1.5, longitude: 2.5, title: "t", address: "a", foursquareId: "i", foursquareType: "y" }, () => ({ _: "inputMediaVenue", geo_point: { _: "inputGeoPoint", lat: 1.5, long: 2.5 }, title: "t", address: "a", provider: "foursquare", venue_id: "i", venue_type: "y" })],
  [{ type: "link", url: "https://e.org" }, () => ({ _: "inputMediaWebPage", url: "https://e.org" })],
];

function sending(bot: boolean): Spec[] {
  const general = [...SEND, ...markup(), ...BUSINESS, ...RECEIVER];
  return [
    {
      name: "sendMessage",
      bot,
      call: (c, x) => c.sendMessage(x.chat.id, x.a.text ?? "hi", x.p),
      req: (x) => ({ _: "messages.sendMessage", peer: x.chat.input, message: "hi", random_id: 1n }),
      opts: [...WORDS(true), arg("text", " \n", bad), ...PREVIEWS, ...general],
      finish: (x) => {
        preview(x);
        finish(x);
      },
      answer: one(),
      result: gives("text"),
    },
    {
      name: "sendMessage with buttons",
      bot: true,
      chats: [ALICE],
      call: (c, x) => c.sendMessage(x.chat.id, "hi", x.p),
      req: (x) => ({ _: "messages.sendMessage", peer: x.chat.input, message: "hi", random_id: 1n }),
      opts: [...markup(MARKUPS), o("replyMarkup", { type: "inlineKeyboard", inlineKeyboard: [[{ type: "switchInlineQueryChosenChats", text: "t", inlineQuery: "" }]] }, bad)],
      answer: one(),
      result: gives("text"),
    },
    {
      name: "sendMessage in a parse mode",
      bot,
      chats: [ALICE],
      params: { parseMode: "HTML" },
      call: (c, x) => c.sendMessage(x.chat.id, x.a.text ?? "<i>it</i>", x.p),
      req: (x) => ({ _: "messages.sendMessage", peer: x.chat.input, message: "it", entities: [T("Italic")], random_id: 1n }),
      opts: [o("parseMode", null, put({ message: "<i>it</i>", entities: [] })), o("parseMode", "HTML"), o("isSilent", true, put({ silent: true }))],
      answer: one(),
      result: gives("text"),
    },
    {
      name: "sendVenue",
      bot,
      call: (c, x) => c.sendVenue(x.chat.id, 1.5, -2.5, "title", "address", x.p),
      req: (x) => sendMedia(x, { _: "inputMediaVenue", geo_point: { _: "inputGeoPoint", lat: 1.5, long: -2.5 }, title: "title", address: "address", provider: "foursquare", venue_id: "", venue_type: "" }),
      opts: [o("foursquareId", "i", (x) => void (x.req.media.venue_id = "i")), o("foursquareType", "t", (x) => void (x.req.media.venue_type = "t")), ...general],
      finish,
      answer: one({ _: "messageMediaVenue", geo, title: "t", address: "a", provider: "foursquare", venue_id: "", venue_type: "" }),
      result: gives("venue"),
    },
    {
      name: "sendContact",
      bot,
      call: (c, x) => c.sendContact(x.chat.id, "first", "+1555", x.p),
      req: (x) => sendMedia(x, { _: "inputMediaContact", first_name: "first", phone_number: "+1555", last_name: "", vcard: "" }),
      opts: [o("lastName", "l", (x) => void (x.req.media.last_name = "l")), o("vcard", "v", (x) => void (x.req.media.vcard = "v")), ...general],
      finish,
      answer: one({ _: "messageMediaContact", phone_number: "1", first_name: "f", last_name: "l", vcard: "", user_id: 0n }),
      result: gives("contact"),
    },
    {
      name: "sendDice",
      bot,
      call: (c, x) => c.sendDice(x.chat.id, x.p),
      req: (x) => sendMedia(x, { _: "inputMediaDice", emoticon: "🎲" }),
      opts: [o("emoji", "🎯", (x) => void (x.req.media.emoticon = "🎯")), ...general],
      finish: noEphemeral,
      answer: one({ _: "messageMediaDice", value: 3, emoticon: "🎲" }),
      result: gives("dice"),
    },
    {
      name: "sendLocation",
      bot,
      call: (c, x) => c.sendLocation(x.chat.id, 1.5, -2.5, x.p),
      req: (x) => sendMedia(x, { _: "inputMediaGeoPoint", geo_point: { _: "inputGeoPoint", lat: 1.5, long: -2.5 } }),
      opts: [o("horizontalAccuracy", 4, (x) => void (x.req.media.geo_point.accuracy_radius = 4)), o("livePeriod", 90), o("heading", 20), o("proximityAlertRadius", 30), ...general],
      finish: (x) => {
        if (x.p.livePeriod) x.req.media = { _: "inputMediaGeoLive", geo_point: x.req.media.geo_point, period: 90, heading: x.p.heading, proximity_notification_radius: x.p.proximityAlertRadius };
        finish(x);
      },
      answer: one((q: any) => q.media._ === "inputMediaGeoLive" ? { _: "messageMediaGeoLive", geo, period: 90 } : { _: "messageMediaGeo", geo }),
      result: gives("location"),
    },
    {
      name: "sendPoll",
      bot,
      call: (c, x) => c.sendPoll(x.chat.id, x.a.question ?? "q?", x.a.options ?? [{ text: "o0" }, { text: "o1" }], x.p),
      req: (x) => sendMedia(x, { _: "inputMediaPoll", poll: { _: "poll", id: 1n, hash: 0n, question: worded2("q?"), answers: ["o0", "o1"].map((t) => ({ _: "inputPollAnswer", text: worded2(t) })) } }),
      opts: [
        ...[["isClosed", "closed"], ["isMultipleAnswersAllowed", "multiple_choice"], ["isShuffled", "shuffle_answers"], ["isResultHidden", "hide_results_until_close"], ["isAddingOptionsAllowed", "open_answers"], ["isSubscriberOnly", "subscribers_only"]].flatMap(([k, f]) => [o(k, true, (x) => void (x.req.media.poll[f] = true)), o(k, false)]),
        o("isAnonymous", false, (x) => void (x.req.media.poll.public_voters = true)),
        o("isAnonymous", true),
        o("isRevotingAllowed", false, (x) => void (x.req.media.poll.revoting_disabled = true)),
        o("isRevotingAllowed", true),
        o("type", "quiz", (x) => void (x.req.media.poll.quiz = true)),
        o("type", "regular"),
        o("correctOptionIndexes", [1], (x) => void (x.req.media.correct_answers = [1])),
        o("openPeriod", 60, (x) => void (x.req.media.poll.close_period = 60)),
        o("closeDate", 2000000000, (x) => void (x.req.media.poll.close_date = 2000000000)),
        o("countries", ["US", "NL"], (x) => void (x.req.media.poll.countries_iso2 = ["US", "NL"])),
        ...worded({ text: "question", entities: "questionEntities", mode: "questionParseMode" }, true, false, (x) => x.req.media.poll.question, "text"),
        arg("question", " ", bad),
        arg("options", [], bad),
        arg("options", [{ text: "<b>o0</b>", parseMode: "HTML" }, { text: "o1", entities: [E("bold")] }, { text: "o2" }], (x) => void (x.req.media.poll.answers = [worded2("o0", T("Bold")), worded2("o1", T("Bold")), worded2("o2")].map((t) => ({ _: "inputPollAnswer", text: t })))),
        o("explanation", "why", (x) => void (x.req.media.solution = "why")),
        o("explanation", "<b>why</b>"),
        o("explanationParseMode", "HTML"),
        o("explanationEntities", [E("italic")]),
        o("description", "about", (x) => void (x.req.message = "about")),
        o("description", "<b>about</b>"),
        o("descriptionParseMode", "HTML"),
        o("descriptionEntities", [E("italic")]),
        ...SEND.filter((x) => !/directMessages/.test(x.key)).filter((x) => x.key !== "replyTo" || x.v === REPLY[0]),
        ...markup(),
        ...BUSINESS,
        ...RECEIVER,
      ],
      finish: (x) => {
        const { explanation: e, description: d } = x.p;
        if (e) {
          const parsed = e !== "why" && x.p.explanationParseMode;
          x.req.media.solution = parsed ? "why" : e;
          // a solution goes together with its entities
          x.req.media.solution_entities = [...(x.p.explanationEntities ? [T("Italic")] : []), ...(parsed ? [{ _: "messageEntityBold", offset: 0, length: 3 }] : [])];
          if (!x.req.media.solution_entities.length) x.req.media.solution_entities = undefined;
        }
        if (d) {
          const parsed = d !== "about" && x.p.descriptionParseMode;
          x.req.message = parsed ? "about" : d;
          x.req.entities = [...(x.p.descriptionEntities ? [T("Italic")] : []), ...(parsed ? [{ _: "messageEntityBold", offset: 0, length: 5 }] : [])];
        }
        noEphemeral(x);
      },
      answer: one(pollMedia),
      result: gives("poll"),
    },
    {
      name: "sendPoll with media",
      bot,
      chats: [ALICE, CHANNEL],
      call: (c, x) => c.sendPoll(x.chat.id, "q?", x.a.options ?? [{ text: "o0" }, { text: "o1" }], x.p),
      req: (x) => sendMedia(x, { _: "inputMediaPoll", poll: { _: "poll", id: 1n, hash: 0n, question: worded2("q?"), answers: ["o0", "o1"].map((t) => ({ _: "inputPollAnswer", text: worded2(t) })) } }),
      opts: POLLMEDIA.flatMap(([m, t]) => [
        arg("options", [{ text: "o0" }, { text: "o1", media: m }], (x) => void (x.req.media.poll.answers[1].media = t(x))),
        o("explanationMedia", m, (x) => void (x.req.media.solution_media = t(x))),
        o("media", m, (x) => void (x.req.media.attached_media = t(x))),
      ]).sort((a, b) => ["options", "explanationMedia", "media"].indexOf(a.key) - ["options", "explanationMedia", "media"].indexOf(b.key)),
      other: (q) => q._ === "messages.uploadMedia" ? photoMedia(38n) : undefined,
      answer: one(pollMedia),
      result: gives("poll"),
    },
    {
      name: "sendChecklist",
      bot,
      chats: [ALICE, CHANNEL],
      call: (c, x) => c.sendChecklist(x.chat.id, x.a.title ?? "title", x.a.items ?? [{ text: "i0" }, { text: "i1" }], x.p),
      req: (x) => sendMedia(x, { _: "inputMediaTodo", todo: { _: "todoList", title: worded2("title"), list: ["i0", "i1"].map((t, i) => ({ _: "todoItem", id: i + 1, title: worded2(t) })) } }),
      opts: [
        ...worded({ text: "title", entities: "titleEntities", mode: "titleParseMode" }, true, false, (x) => x.req.media.todo.title, "text"),
        arg("title", " ", bad),
        arg("items", [], bad),
        arg("items", [{ text: "<b>i0</b>", parseMode: "HTML" }, { text: "i1", entities: [E("bold")] }, { text: "i2" }], (x) => void (x.req.media.todo.list = [worded2("i0", T("Bold")), worded2("i1", T("Bold")), worded2("i2")].map((title, i) => ({ _: "todoItem", id: i + 1, title })))),
        o("isExtendableByOthers", true, (x) => void (x.req.media.todo.others_can_append = true)),
        o("isExtendableByOthers", false),
        o("isCompletableByOthers", true, (x) => void (x.req.media.todo.others_can_complete = true)),
        o("isCompletableByOthers", false),
        ...SEND,
        ...BUSINESS,
        ...RECEIVER,
      ],
      finish: noEphemeral,
      answer: one({ _: "messageMediaToDo", todo: { _: "todoList", title: worded2("t"), list: [] } }),
      result: gives("checklist"),
    },
    {
      name: "sendInvoice",
      bot,
      chats: [ALICE, CHANNEL],
      call: (c, x) => c.sendInvoice(x.chat.id, x.a.title ?? "title", x.a.description ?? "description", "payload", "USD", x.a.prices ?? [{ label: "l", amount: 5 }], x.p),
      req: (x) => {
        if (!x.bot) x.invalid = true;
        return sendMedia(x, { _: "inputMediaInvoice", title: "title", description: "description", payload: text.encode("payload"), provider: "", provider_data: { _: "dataJSON", data: "null" }, invoice: { _: "invoice", currency: "USD", prices: [{ _: "labeledPrice", label: "l", amount: 5n }] } });
      },
      opts: [
        arg("title", "", bad),
        arg("title", "t".repeat(33), bad),
        arg("title", "t".repeat(32), (x) => void (x.req.media.title = "t".repeat(32))),
        arg("description", "", bad),
        arg("description", "d".repeat(256), bad),
        arg("description", "d".repeat(255), (x) => void (x.req.media.description = "d".repeat(255))),
        arg("prices", [{ label: "l", amount: 5 }, { label: "m", amount: -3 }], (x) => void (x.req.media.invoice.prices = [{ _: "labeledPrice", label: "l", amount: 5n }, { _: "labeledPrice", label: "m", amount: -3n }])),
        o("providerToken", "t", (x) => void (x.req.media.provider = "t")),
        o("maxTipAmount", 9, (x) => void (x.req.media.invoice.max_tip_amount = 9n)),
        o("suggestedTipAmounts", [1, 2], (x) => void (x.req.media.invoice.suggested_tip_amounts = [1n, 2n])),
        o("startParameter", "s", (x) => void (x.req.media.start_param = "s")),
        o("providerData", "{}", (x) => void (x.req.media.provider_data.data = "{}")),
        o("photoUrl", "https://e.org/p", (x) => void (x.req.media.photo = { _: "inputWebDocument", url: "https://e.org/p", size: x.p.photoSize ?? 0, mime_type: "image/jpeg", attributes: [{ _: "documentAttributeImageSize", w: x.p.photoWidth ?? 0, h: x.p.photoHeight ?? 0 }] })),
        o("photoSize", 5),
        o("photoWidth", 6),
        o("photoHeight", 7),
        ...[["isNameNeeded", "name_requested"], ["isPhoneNumberNeeded", "phone_requested"], ["isEmailNeeded", "email_requested"], ["isShippingAddressNeeded", "shipping_address_requested"], ["isPhoneNumberSentToProvider", "phone_to_provider"], ["isEmailSentToProvider", "email_to_provider"], ["isFlexible", "flexible"]].flatMap(([k, f]) => [o(k, true, (x) => void (x.req.media.invoice[f] = true)), o(k, false)]),
        ...SEND.filter((x) => x.key !== "replyTo" || x.v === REPLY[0]),
        ...markup(),
        ...BUSINESS,
        ...RECEIVER,
      ],
      finish: (x) => {
        // the server asks for both
        if (x.p.maxTipAmount && !x.p.suggestedTipAmounts || !x.p.maxTipAmount && x.p.suggestedTipAmounts) x.skip = true;
        finish(x);
      },
      answer: one({ _: "messageMediaInvoice", title: "t", description: "d", currency: "USD", total_amount: 5n, start_param: "" }),
      result: gives("invoice"),
    },
    {
      name: "forwardMessages",
      bot,
      call: (c, x) => c.forwardMessages(x.a.from ?? 12, x.chat.id, x.a.ids ?? [3, 1], x.p),
      req: (x) => ({ _: "messages.forwardMessages", from_peer: BOB.input, to_peer: x.chat.input, id: [3, 1], random_id: [1n, 2n] }),
      opts: [
        arg("from", CHANNEL.id, put({ from_peer: CHANNEL.input })),
        arg("ids", [4], put({ id: [4], random_id: [1n] })),
        arg("ids", [4, 0], bad),
        arg("ids", [-4], bad),
        arg("ids", [1.5], bad),
        ...flag("isSenderNameDropped", "drop_author"),
        ...flag("isCaptionDropped", "drop_media_captions"),
        ...SEND,
      ],
      finish: (x) => {
        placed(x);
        if (x.p.messageThreadId) x.req.top_msg_id = 7;
      },
      answer: (q, x, s) => updates(q.id.map(() => made(x, s, q, undefined)), x, s),
      result: (v, x, s) => check(Array.isArray(v) && v.map((m: any) => `${m.id} ${m.chat.id}`).join() === s.made.map((m) => `${m.id} ${x.chat.id}`).join(), () => `the call gives ${JSON.stringify(v)}`, "the messages given"),
    },
    groupOfMedia(bot),
    {
      name: "startBot",
      bot,
      chats: [ALICE],
      call: (c, x) => c.startBot(ALICE.id, x.p),
      req: (x) => {
        if (x.bot) x.invalid = true;
        return { _: "messages.sendMessage", peer: x.chat.input, message: "/start", random_id: 1n };
      },
      opts: [o("deeplink", "d"), o("deeplink", " d "), o("chatId", -9)],
      finish: (x) => {
        if (!x.p.deeplink && x.p.chatId) x.invalid = true;
        if (x.p.deeplink) x.req = { _: "messages.startBot", bot: inputUser(ALICE), peer: x.p.chatId ? GROUP.input : ALICE.input, random_id: 1n, start_param: "d" };
        if (x.p.chatId) x.chat = GROUP;
      },
      answer: one(),
      result: gives("text"),
    },
  ];
}
function groupOfMedia(bot: boolean): Spec {
  const variants: [string, any, boolean][] = [];
  for (const t of ["photo", "video", "document", "audio"]) {
    const type = t === "photo" ? FileType.Photo : KINDS[t].type, fileName = t === "photo" ? "x.jpg" : KINDS[t].name;
    variants.push(
      [t, { type: t, [t]: fileId(type) }, false],
      [t, { type: t, [t]: fileId(type), caption: "<b>c</b>", parseMode: "HTML", isSpoiler: true }, false],
      [t, { type: t, [t]: BYTES, fileName, caption: "c", captionEntities: [E("bold", { length: 1 })] }, false],
      [t, { type: t, [t]: BYTES, fileName, isSpoiler: true, ...(t === "photo" || t === "video" ? { selfDestruct: 9 } : {}), ...(t === "photo" ? {} : { thumbnail: THUMB, duration: 3, width: 4, height: 5, performer: "p", title: "t", isStreamingSupported: true }) }, false],
    );
  }
  const item = (x: Exp, [t, m]: [string, any, boolean]) => {
    let media = fileMedia(t, m[t], m);
    if (/Uploaded/.test(media._)) {
      x.before.push({ _: "messages.uploadMedia", peer: x.chat.input, media, business_connection_id: x.business });
      const id = t === "photo" ? 38n : 60n;
      media = { _: t === "photo" ? "inputMediaPhoto" : "inputMediaDocument", id: { _: t === "photo" ? "inputPhoto" : "inputDocument", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]) }, spoiler: media.spoiler, ttl_seconds: media.ttl_seconds };
    }
    return { _: "inputSingleMedia", media, random_id: 1n, message: m.caption ? "c" : "", entities: m.caption ? [T("Bold", { length: 1 })] : [] };
  };
  const mixes = (a: string, b: string) => a === b || ["photo", "video"].includes(a) && ["photo", "video"].includes(b);
  return {
    name: "sendMediaGroup",
    bot,
    chats: [ALICE, CHANNEL],
    call: (c, x) => c.sendMediaGroup(x.chat.id, x.a.media, x.p),
    req: (x) => ({ _: "messages.sendMultiMedia", peer: x.chat.input, multi_media: [] }),
    opts: [
      ...variants.flatMap((v, i) => variants.slice(i % 4 ? i - i % 4 : 0).map((w) => arg("media", [v, w]))),
      arg("media", [variants[0]]),
      arg("media", Array(10).fill(variants[0])),
      arg("media", Array(11).fill(variants[0])),
      arg("media", []),
      arg("media", [["animation", { type: "animation", animation: fileId(FileType.Animation) }]]),
      ...SEND.filter((x) => x.key !== "replyTo" || x.v === REPLY[0]),
      ...BUSINESS,
      ...RECEIVER,
    ],
    finish: (x) => {
      const l: [string, any, boolean][] = x.a.media ?? [variants[0], variants[4]];
      x.a.media = l.map((v) => structuredClone(v[1]));
      if (!l.length || l.length > 10 || l.some((v) => v[0] === "animation") || l.some((v) => !mixes(l[0][0], v[0])) || x.p.receiverId !== undefined) x.invalid = true;
      if (x.invalid) return;
      x.req.multi_media = l.map((v) => item(x, v));
      placed(x);
    },
    other: (q) => q._ === "messages.uploadMedia" ? (/Photo/.test(q.media._) ? photoMedia(38n) : docMedia(60n, "a/b", NAME)) : undefined,
    answer: (q, x, s) => updates(q.multi_media.map((m: any) => made(x, s, { ...q, message: m.message }, photoMedia(38n))), x, s),
    result: (v, x, s) => check(Array.isArray(v) && v.map((m: any) => `${m.id} ${m.chat.id}`).join() === s.made.map((m) => `${m.id} ${x.chat.id}`).join(), () => `the call gives ${JSON.stringify(v)}`, "the messages given"),
  };
}

// ---- messages there are
export const there = (media?: any, more: any = {}) => (q: any, x: Exp) =>
  /getMessages$/.test(q._)
    ? { _: x.chat === CHANNEL ? "messages.channelMessages" : "messages.messages", ...(x.chat === CHANNEL ? { pts: 1, count: 1 } : {}), messages: [{ _: "message", out: true, id: q.id[0].id, from_id: { _: "peerUser", user_id: SELF }, peer_id: x.chat.peer, date: 4, message: "before", media, ...more }], topics: [], chats: [], users: [] }
    : undefined;
export const inline = { _: "inputBotInlineMessageID64", dc_id: 2, owner_id: 12n, id: 44, access_hash: 55n };
export const inlineId = btoa(String.fromCharCode(...apiCodec.encode(inline))).replace(/=*$/, "").replaceAll("+", "-").replaceAll("/", "_");
export const PLAIN = (): Opt[] => [...markup(), ...BUSINESS];

function editing(bot: boolean): Spec[] {
  const editMedia: Opt[] = [];
  for (const t of ["photo", "video", "animation", "audio", "document"]) {
    const type = t === "photo" ? FileType.Photo : KINDS[t].type, fileName = t === "photo" ? "x.jpg" : KINDS[t].name;
    for (const m of [
      { [t]: fileId(type) },
      { [t]: fileId(type), isSpoiler: true, caption: "<b>c</b>", parseMode: "HTML" },
      { [t]: "https://e.org/f", caption: "c", captionEntities: [E("bold", { length: 1 })] },
      { [t]: BYTES, fileName, isSpoiler: true, ...(t === "photo" ? {} : { thumbnail: THUMB, duration: 3, width: 4, height: 5, performer: "p", title: "t", isStreamingSupported: true }), ...(t === "photo" || t === "video" ? { selfDestruct: "afterOpen" } : {}) },
    ] as any[]) {
      editMedia.push(arg("media", { type: t, ...m }, (x) => {
        x.req.media = fileMedia(t, m[t], m);
        if (m.caption) x.req.message = "c", x.req.entities = [T("Bold", { length: 1 })];
      }));
    }
  }
  const ids = [arg("id", 0, bad), arg("id", -1, bad), arg("id", 1.5, bad), arg("id", "5", bad), arg("id", NaN, bad)];
  const edited = (x: Exp) => ({ _: "messages.editMessage", peer: x.chat.input, id: 5 });
  const specs: Spec[] = [
    {
      name: "editMessageText",
      bot,
      call: (c, x) => c.editMessageText(x.chat.id, x.a.id ?? 5, x.a.text ?? "hi", x.p),
      req: (x) => ({ ...edited(x), message: "hi" }),
      opts: [...ids, ...WORDS(true), arg("text", " ", bad), ...PREVIEWS, o("linkPreview", { type: "loading", id: "1", date: 1, mediaSize: "large", isAboveText: true }, bad), ...PLAIN()],
      finish: (x) => preview(x, true),
      other: there(),
      answer: edit(5),
      result: gives("text"),
    },
    { name: "editMessageText of a photo", bot, call: (c, x) => c.editMessageText(x.chat.id, 5, "hi", x.p), req: (x) => (x.invalid = true, edited(x)), opts: PLAIN(), other: there(photoMedia(38n)), answer: edit(5) },
    { name: "editMessageText of a lost message", bot, call: (c, x) => c.editMessageText(x.chat.id, 5, "hi", x.p), req: (x) => (x.invalid = true, edited(x)), opts: PLAIN(), other: (q, x) => /getMessages$/.test(q._) ? { ...there()(q, x), messages: [{ _: "messageEmpty", id: 5 }] } : undefined, answer: edit(5) },
    {
      name: "editMessageCaption",
      bot,
      call: (c, x) => c.editMessageCaption(x.chat.id, x.a.id ?? 5, x.p),
      req: (x) => ({ ...edited(x), message: "" }),
      opts: [...ids, ...worded({ text: "caption", entities: "entities", mode: "parseMode" }, false, true, (x) => x.req, "message"), o("caption", "hi", put({ message: "hi" })), ...PLAIN()],
      finish: (x) => {
        if (x.p.caption === undefined) x.req.entities = [];
      },
      other: there(photoMedia(38n)),
      answer: edit(5, photoMedia(38n)),
      result: gives("photo"),
    },
    { name: "editMessageCaption of a text", bot, call: (c, x) => c.editMessageCaption(x.chat.id, 5, x.p), req: (x) => (x.invalid = true, edited(x)), opts: PLAIN(), other: there(), answer: edit(5) },
    {
      name: "editMessageMedia",
      bot,
      chats: [ALICE, CHANNEL],
      call: (c, x) => c.editMessageMedia(x.chat.id, 5, structuredClone(x.a.media ?? { type: "photo", photo: fileId(FileType.Photo) }), x.p),
      req: (x) => ({ ...edited(x), media: fileMedia("photo", fileId(FileType.Photo), {}) }),
      opts: [...editMedia, ...PLAIN()],
      other: there(photoMedia(38n)),
      answer: edit(5, photoMedia(38n)),
      result: gives("photo"),
    },
    {
      name: "editMessageReplyMarkup",
      bot,
      call: (c, x) => c.editMessageReplyMarkup(x.chat.id, x.a.id ?? 5, x.p),
      req: edited,
      opts: [...ids, ...PLAIN()],
      other: there(),
      answer: edit(5),
      result: gives("text"),
    },
    {
      name: "editMessageLiveLocation",
      bot,
      call: (c, x) => c.editMessageLiveLocation(x.chat.id, 5, 1.5, -2.5, x.p),
      req: (x) => ({ ...edited(x), media: { _: "inputMediaGeoLive", geo_point: { _: "inputGeoPoint", lat: 1.5, long: -2.5 } } }),
      opts: [o("horizontalAccuracy", 4, (x) => void (x.req.media.geo_point.accuracy_radius = 4)), o("heading", 20, (x) => void (x.req.media.heading = 20)), o("proximityAlertRadius", 30, (x) => void (x.req.media.proximity_notification_radius = 30)), ...PLAIN()],
      other: there({ _: "messageMediaGeoLive", geo, period: 90 }),
      answer: edit(5, { _: "messageMediaGeoLive", geo, period: 90 }),
      result: gives("location"),
    },
    {
      name: "stopPoll",
      bot,
      call: (c, x) => c.stopPoll(x.chat.id, 5, x.p),
      req: (x) => ({ ...edited(x), media: { _: "inputMediaPoll", poll: { _: "poll", id: 5n, closed: true, hash: 0n, question: worded2(""), answers: [] } } }),
      opts: PLAIN(),
      other: (q, x) => there(pollMedia({}))(q, x),
      answer: (q, x, s) => edit(5, { ...pollMedia({}), poll: { ...pollMedia({}).poll, closed: true } })(q, x, s),
    },
    {
      name: "forward of one message",
      bot,
      chats: [ALICE],
      call: (c, x) => c.forwardMessage(12, x.chat.id, 3, x.p),
      req: (x) => ({ _: "messages.forwardMessages", from_peer: BOB.input, to_peer: x.chat.input, id: [3], random_id: [1n] }),
      opts: [...flag("isSenderNameDropped", "drop_author")],
      answer: one(),
      result: gives("text"),
    },
  ];
  // messages sent by way of inline queries
  const inlineSpec = (name: string, call: Spec["call"], more: any, opts: Opt[], fin?: Spec["finish"]): Spec => ({
    name,
    bot,
    chats: [ALICE],
    call,
    req: (x) => (x.bot || (x.invalid = true), { _: "messages.editInlineBotMessage", id: inline, ...structuredClone(more) }),
    opts: [...opts, ...markup(), arg("id", "x", bad)],
    finish: fin,
    other: (q) => q._ === "messages.uploadMedia" ? (/Photo/.test(q.media._) ? photoMedia(38n) : docMedia(60n, "a/b", NAME)) : undefined,
    answer: () => true,
  });
  specs.push(
    inlineSpec("editInlineMessageText", (c, x) => c.editInlineMessageText(x.a.id ?? inlineId, x.a.text ?? "hi", x.p), { message: "hi" }, [...WORDS(false), arg("text", " ", bad), ...PREVIEWS], (x) => preview(x, true)),
    inlineSpec("editInlineMessageCaption", (c, x) => c.editInlineMessageCaption(x.a.id ?? inlineId, x.p), { message: "" }, [...worded({ text: "caption", entities: "entities", mode: "parseMode" }, false, false, (x) => x.req, "message")], (x) => {
      if (x.p.caption === undefined) x.req.entities = [];
    }),
    inlineSpec("editInlineMessageReplyMarkup", (c, x) => c.editInlineMessageReplyMarkup(x.a.id ?? inlineId, x.p), {}, []),
    inlineSpec("editInlineMessageLiveLocation", (c, x) => c.editInlineMessageLiveLocation(x.a.id ?? inlineId, 1.5, -2.5, x.p), { media: { _: "inputMediaGeoLive", geo_point: { _: "inputGeoPoint", lat: 1.5, long: -2.5 } } }, [o("horizontalAccuracy", 4, (x) => void (x.req.media.geo_point.accuracy_radius = 4)), o("heading", 20, (x) => void (x.req.media.heading = 20)), o("proximityAlertRadius", 30, (x) => void (x.req.media.proximity_notification_radius = 30))]),
    inlineSpec("editInlineMessageMedia", (c, x) => c.editInlineMessageMedia(x.a.id ?? inlineId, structuredClone(x.a.media ?? { type: "photo", photo: fileId(FileType.Photo) }), x.p), { media: fileMedia("photo", fileId(FileType.Photo), {}) }, editMedia, (x) => {
      const m = x.req.media;
      if (x.invalid || !/Uploaded/.test(m._)) return;
      x.before.push({ _: "messages.uploadMedia", peer: { _: "inputPeerSelf" }, media: m });
      const isPhoto = /Photo/.test(m._), id = isPhoto ? 38n : 60n;
      x.req.media = { _: isPhoto ? "inputMediaPhoto" : "inputMediaDocument", id: { _: isPhoto ? "inputPhoto" : "inputDocument", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]) }, spoiler: m.spoiler, ttl_seconds: m.ttl_seconds };
    }),
  );
  // messages only one user sees
  if (bot) {
    const eph = (name: string, call: Spec["call"], more: any, opts: Opt[], media?: any, fin?: Spec["finish"]): Spec => ({
      name,
      bot,
      chats: [GROUP, CHANNEL],
      call,
      req: (x) => ({ _: "ephemeral.editMessage", peer: x.chat.input, receiver_id: inputUser(BOB), id: 5, ...structuredClone(more) }),
      opts: [...ids.slice(0, 2), ...opts, ...markup()],
      finish: fin,
      answer: edit(5, media),
      result: gives(media ? "photo" : "text"),
    });
    specs.push(
      eph("editEphemeralMessageText", (c, x) => c.editEphemeralMessageText(x.chat.id, 12, x.a.id ?? 5, x.a.text ?? "hi", x.p), { message: "hi" }, [...WORDS(false), arg("text", " ", bad), ...PREVIEWS], undefined, (x) => {
        preview(x, true);
        delete x.req.no_webpage, delete x.req.invert_media;
      }),
      eph("editEphemeralMessageCaption", (c, x) => c.editEphemeralMessageCaption(x.chat.id, 12, x.a.id ?? 5, x.p), { message: "" }, [...worded({ text: "caption", entities: "entities", mode: "parseMode" }, false, false, (x) => x.req, "message")], photoMedia(38n), (x) => {
        if (x.p.caption === undefined) x.req.entities = [];
      }),
      eph("editEphemeralMessageReplyMarkup", (c, x) => c.editEphemeralMessageReplyMarkup(x.chat.id, 12, x.a.id ?? 5, x.p), {}, []),
      eph("editEphemeralMessageMedia", (c, x) => c.editEphemeralMessageMedia(x.chat.id, 12, x.a.id ?? 5, structuredClone(x.a.media ?? { type: "photo", photo: fileId(FileType.Photo) }), x.p), { media: fileMedia("photo", fileId(FileType.Photo), {}) }, editMedia, photoMedia(38n)),
    );
  }
  return specs;
}
export const specs = (bot: boolean) => [...sending(bot).filter((s) => s.bot === bot), ...files(bot), ...editing(bot)];

export default {
  id: "X01",
  level: "model_checking",
  rule: "every method for sending and editing messages, called by users and bots in every kind of chat with every combination of at most two of its parameters (three in thorough) out of the listed values, valid and not; the requests a model server receives, through encryption and serialization, compared with what was asked for, and the message given with the one the server made; an execution is non-trivial when the server was asked or the call was refused",
  assumptions: ["Parameters interact in pairs (in triples in thorough) at most.", "Combinations whose meaning is not stated (a thread together with a direct messages topic, messages for one user on behalf of a business) are not decided."],
  exhaustive: true,
  scenarios: (tier) => {
    const list: Scenario[] = [];
    for (const bot of [false, true]) {
      for (const s of specs(bot)) list.push(scenario(s, s.name === "sendMessage with buttons" ? 1 : tier === "thorough" && s.opts.length < 60 ? 3 : 2));
    }
    return list;
  },
} satisfies CheckDef;
