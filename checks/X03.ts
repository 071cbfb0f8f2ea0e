// deno-lint-ignore-file no-explicit-any
import { Buffer } from "node:buffer";
import type { CheckDef } from "../lib/api.ts";
import { check, type Scenario } from "../lib/explore.ts";
import { channel, SELF, user } from "../lib/client.ts";
import { ALICE, BOB, CHANNEL, type Exp, GROUP, inputChannel, inputUser, type Opt, PASSWORD, scenario } from "../lib/calls.ts";
import { arg, B, bad, both, BUSINESS, C, chatOnly, done, flags, ids, is, K, limits, nothing, nowhere, o, peer, PROOF, proof, put, type Req, table, U, yes } from "../lib/table.ts";
import { FileType, serializeFileId } from "/repo/types/_file_id.ts";

const { method, specs } = table();
const REF = new Uint8Array([7, 8, 9]), BYTES = new Uint8Array([65, 66, 67, 68]);
const ID = 5000000000000000021n;
const fileId = (type: any, id = ID) => serializeFileId({ type, dcId: 2, fileReference: REF, location: type === FileType.Photo ? { type: "photo", id, accessHash: -22n, source: { type: 1, fileType: type, thumbnailType: 120 } } : { type: "common", id, accessHash: -22n } } as any);
const known = (_: string, id = ID) => ({ _, id, access_hash: -22n, file_reference: REF });
const uploaded = (name: string, b = BYTES) => ({ _: "inputFile", id: "file " + [...b].join(","), parts: 1, name, md5_checksum: "" });
const doc = (id: bigint, mime_type: string, ...attributes: any[]) => ({ _: "document", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]), date: 1, mime_type, size: 5n, dc_id: 2, attributes });
const docInput = (id: bigint) => ({ _: "inputDocument", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]) });
const photo = (id: bigint) => ({ _: "photo", id, access_hash: id + 1n, file_reference: new Uint8Array([1, 2]), date: 1, sizes: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 5 }], dc_id: 2 });
const plain = (text: string) => ({ _: "textWithEntities", text });
const bold = (text: string) => ({ _: "textWithEntities", text, entities: [{ _: "messageEntityBold", offset: 0, length: text.length }] });
const sees = (pick: (v: any) => any, want: any) => (v: any, x: Exp) => {
  const got = JSON.stringify(pick(v)), w = JSON.stringify(typeof want === "function" ? want(x) : want);
  check(got === w, () => `the call gives ${got} instead of ${w}`, "what the call gives");
};
const names = (list: any[]) => list.map((v) => v.id);
const storyIds: Opt[] = [arg("ids", [9], put({ id: [9] })), arg("ids", [5, 0], bad), arg("ids", [-5], bad), arg("ids", [1.5], bad)];

// ---- contacts
const note = (as: string): Opt[] => [
  o("note", "<b>n</b>", (x) => void (x.req[as] = x.p.noteParseMode === "HTML" ? bold("n") : plain("<b>n</b>"))),
  o("noteParseMode", "HTML"),
];
method("addContact", (x) => [11, "A", x.p], U(() => ({ _: "contacts.addContact", id: inputUser(ALICE), first_name: "A", last_name: "", phone: "" })), done, [
  ...flags([["isPhoneNumberShared", "add_phone_privacy_exception"]]),
  o("lastName", "L", put({ last_name: "L" })),
  o("phoneNumber", "123", put({ phone: "123" })),
  ...note("note"),
], nowhere);
method("deleteContacts", (x) => [x.a.ids ?? [11, 12]], U(() => ({ _: "contacts.deleteContacts", id: [inputUser(ALICE), inputUser(BOB)] })), done, [arg("ids", [12], put({ id: [inputUser(BOB)] })), arg("ids", [12, 11], put({ id: [inputUser(BOB), inputUser(ALICE)] }))], nowhere);
method("deleteContact", () => [12], U(() => ({ _: "contacts.deleteContacts", id: [inputUser(BOB)] })), done, [], nowhere);
method("getContacts", () => [], U(() => ({ _: "contacts.getContacts", hash: 0n })), () => ({ _: "contacts.contacts", contacts: [{ _: "contact", user_id: 11n, mutual: true }, { _: "contact", user_id: 12n, mutual: false }], saved_count: 0, users: [user(11n), user(12n)] }), [], { ...nowhere, result: sees(names, [11, 12]) });
method("setContactNote", (x) => [11, x.p], U(() => ({ _: "contacts.updateContactNote", id: inputUser(ALICE), note: plain("") })), yes, note("note"), nowhere);

// ---- polls
const option = (i: number) => new Uint8Array([100 + i]);
const poll = (q: any, x: Exp, chosen: number[], multiple: boolean) => ({
  _: x.chat === CHANNEL ? "messages.channelMessages" : "messages.messages",
  ...(x.chat === CHANNEL ? { pts: 1, count: 1 } : {}),
  messages: q.id[0].id === 6 ? [{ _: "message", id: 6, peer_id: x.chat.peer, date: 5, message: "m", from_id: { _: "peerUser", user_id: 12n } }] : q.id[0].id === 5
    ? [{
      _: "message",
      id: 5,
      peer_id: x.chat.peer,
      from_id: { _: "peerUser", user_id: 12n },
      date: 5,
      message: "",
      media: {
        _: "messageMediaPoll",
        poll: { _: "poll", id: 900n, multiple_choice: multiple || undefined, question: { _: "textWithEntities", text: "q", entities: [] }, answers: [0, 1, 2].map((i) => ({ _: "pollAnswer", text: { _: "textWithEntities", text: `a${i}`, entities: [] }, option: option(i) })), hash: 1n },
        results: { _: "pollResults", total_voters: chosen.length, results: [2, 0, 1].map((i) => ({ _: "pollAnswerVoters", option: option(i), voters: chosen.includes(i) ? 1 : 0, recent_voters: [], chosen: chosen.includes(i) || undefined })) },
      },
    }]
    : [{ _: "messageEmpty", id: q.id[0].id }],
  topics: [],
  chats: [],
  users: [],
});
for (const multiple of both) {
  for (const chosen of [[], [0], [2], ...(multiple ? [[0, 1], [1, 2], [0, 1, 2]] : [])]) {
    const other = (q: any, x: Exp) => /getMessages$/.test(q._) ? poll(q, x, chosen, multiple) : undefined;
    const cast = (l: number[]) => (x: Exp) => {
      const want = [...new Set(l)];
      if (!want.length || want.some((i) => i < 0 || i > 2) || want.length > 1 && !multiple || want.length === chosen.length && chosen.every((i) => want.includes(i))) x.invalid = true;
      x.req.options = want.map(option);
    };
    const votes = [[0], [1], [2], [0, 0], [0, 1], [1, 0], [1, 2], [2, 0], [0, 1, 2], [2, 1, 0], [], [3], [-1], [0, 3]];
    method(`vote after ${chosen}${multiple ? " of many" : ""}`, (x) => [x.chat.id, x.a.id ?? 5, x.a.options ?? [1, 0].slice(0, multiple ? 2 : 1)], U((x) => {
      const r: any = { _: "messages.sendVote", peer: x.chat.input, msg_id: 5 };
      const y: any = { ...x, req: r, invalid: false };
      cast(x.a.options ?? [1, 0].slice(0, multiple ? 2 : 1))(y);
      if (y.invalid) x.invalid = true;
      return r;
    }), done, [...votes.map((v) => arg("options", v)), arg("id", 6, bad), arg("id", 7, bad)], { other });
    method(`retractVote after ${chosen}${multiple ? " of many" : ""}`, (x) => [x.chat.id, x.a.id ?? 5], U((x) => (chosen.length || (x.invalid = true), { _: "messages.sendVote", peer: x.chat.input, msg_id: 5, options: [] })), done, [arg("id", 6, bad), arg("id", 7, bad)], { other });
  }
}
method("addPollOption", (x) => [x.chat.id, 5, x.a.option ?? { text: "o" }], U(peer({ _: "messages.addPollAnswer", msg_id: 5, answer: { _: "inputPollAnswer", text: plain("o") } })), done, [
  arg("option", { text: "<b>o</b>", parseMode: "HTML" }, put({ answer: { _: "inputPollAnswer", text: bold("o") } })),
  arg("option", { text: "o", entities: [{ type: "bold", offset: 0, length: 1 }] }, put({ answer: { _: "inputPollAnswer", text: bold("o") } })),
  arg("option", { text: "o", media: { type: "location", latitude: 1, longitude: 2 } }, put({ answer: { _: "inputPollAnswer", text: plain("o"), media: { _: "inputMediaGeoPoint", geo_point: { _: "inputGeoPoint", lat: 1, long: 2 } } } })),
]);

// ---- checklists
method("addToChecklist", (x) => [x.chat.id, 5, x.a.items ?? [{ text: "a" }, { text: "<b>b</b>", parseMode: "HTML" }]], U(peer({ _: "messages.appendTodoList", msg_id: 5, list: [plain("a"), bold("b")].map((title) => ({ _: "todoItem", id: 0, title })) })), done, [
  arg("items", [{ text: "c", entities: [{ type: "bold", offset: 0, length: 1 }] }], put({ list: [{ _: "todoItem", id: 0, title: bold("c") }] })),
]);
const checklist = (completed: number[], incompleted: number[]) => U(peer({ _: "messages.toggleTodoCompleted", msg_id: 5, completed, incompleted }));
method("updateChecklist", (x) => [x.chat.id, 5, x.p], U((x) => (x.p.itemsToCheck?.length || x.p.itemsToUncheck?.length || (x.invalid = true), { _: "messages.toggleTodoCompleted", peer: x.chat.input, msg_id: 5, completed: x.p.itemsToCheck ?? [], incompleted: x.p.itemsToUncheck ?? [] })), done, [
  o("itemsToCheck", [1, 2]),
  o("itemsToCheck", []),
  o("itemsToUncheck", [3]),
  o("itemsToUncheck", []),
]);
method("checkChecklistItems", (x) => [x.chat.id, 5, x.a.items ?? [1, 2]], checklist([1, 2], []), done, [arg("items", [], bad)]);
method("uncheckChecklistItems", (x) => [x.chat.id, 5, x.a.items ?? [1, 2]], checklist([], [1, 2]), done, [arg("items", [], bad)]);
method("checkChecklistItem", (x) => [x.chat.id, 5, x.a.item ?? 3], checklist([3], []), done, [arg("item", 0, put({ completed: [0] }))]);
method("uncheckChecklistItem", (x) => [x.chat.id, 5, 3], checklist([], [3]), done);

// ---- pressing buttons
const question = (q: any, ...fields: any[]): Opt => arg("question", q, put(...fields));
method("sendCallbackQuery", (x) => [x.chat.id, x.a.id ?? 5, x.a.question ?? { type: "button", data: "d" }], U(peer({ _: "messages.getBotCallbackAnswer", msg_id: 5, data: new TextEncoder().encode("d") })), () => ({ _: "messages.botCallbackAnswer", alert: true, message: "m", url: "u", cache_time: 0 }), [
  ...ids,
  question({ type: "button", data: "é" }, { data: new TextEncoder().encode("é") }),
  question({ type: "game" }, { data: undefined, game: true }),
  arg("question", { type: "password", data: "p", password: PASSWORD }, (x) => (put({ data: new TextEncoder().encode("p") })(x), proof(x))),
  arg("question", { type: "password", data: "p", password: "wrong" }, (x) => (put({ data: new TextEncoder().encode("p") })(x), proof(x, "wrong"))),
  arg("question", { type: "password", data: "p", password: "" }, bad),
  arg("question", { type: "other" }, bad),
], { result: (v) => check(v.text === "m" && v.url === "u" && v.isAlert === true, () => JSON.stringify(v), "the answer to a button") });

// ---- bots
const queries: Opt[] = [arg("id", "", bad), arg("id", " ", bad)];
method("answerCallbackQuery", (x) => [x.a.id ?? "5000000000000000031", x.p], B(() => ({ _: "messages.setBotCallbackAnswer", query_id: 5000000000000000031n, cache_time: 0 })), yes, [
  ...queries,
  o("url", "u", put({ url: "u" })),
  o("cacheTime", 9, put({ cache_time: 9 })),
  o("text", "t", put({ message: "t" })),
  ...flags([["isAlert", "alert"]]),
], nowhere);
const INLINE_ID = "d715d9b6" + "02000000" + "0700000000000000" + "08000000" + "0900000000000000";
const article = { id: "1", type: "article", title: "T", messageContent: { type: "text", text: "m" } };
const inlineArticle = (more: any, send: any = {}) => ({ _: "inputBotInlineResult", id: "1", type: "article", title: "T", send_message: { _: "inputBotInlineMessageText", message: "m", ...send }, ...more });
const results = (...pairs: [any, any][]) => pairs.map(([a, b]) => arg("results", [a], put({ results: [b] })));
method("answerGuestQuery", (x) => ["5000000000000000031", x.a.result ?? article], B(() => ({ _: "messages.setBotGuestChatResult", query_id: 5000000000000000031n, result: inlineArticle({}) })), () => ({ _: "inputBotInlineMessageID64", dc_id: 2, owner_id: 7n, id: 8, access_hash: 9n }), [
  arg("result", { ...article, description: "d" }, put({ result: inlineArticle({ description: "d" }) })),
  arg("result", { ...article, messageContent: { type: "text", text: "<b>m</b>", parseMode: "HTML" } }, put({ result: inlineArticle({}, { entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] }) })),
], { ...nowhere, result: (v) => check(Buffer.from(v, "base64url").toString("hex") === INLINE_ID, () => v, "the identifier of an inline message") });
/** Results that are media: by URLs, and of files the server has. */
function mediaResults(): [any, any][] {
  const list: [any, any][] = [];
  const web = (url: string, mime_type: string, attributes: any[]) => ({ _: "inputWebDocument", url, size: 0, mime_type, attributes });
  const auto = (more: any = {}) => ({ _: "inputBotInlineMessageMediaAuto", message: "", entities: [], ...more });
  const caption = { caption: "<b>c</b>", parseMode: "HTML" };
  const captioned = auto({ message: "c", entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] });
  const thumb = web("t", "image/jpeg", []);
  const add = (a: any, b: any, thumbs = true) => {
    a = { id: "1", ...a };
    b = { id: "1", send_message: auto(), ...b };
    list.push([a, b], [{ ...a, ...caption }, { ...b, send_message: captioned }], [{ ...a, replyMarkup: { type: "inlineKeyboard", inlineKeyboard: [[{ type: "url", text: "b", url: "u" }]] } }, { ...b, send_message: auto({ reply_markup: { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: [{ _: "keyboardButtonUrl", text: "b", url: "u" }] }] } }) }]);
    if (thumbs) list.push([{ ...a, thumbnailUrl: "t" }, { ...b, thumb }]);
  };
  const byUrl = (type: string, a: any, mime: string, attributes: any[], more: any = {}) => {
    const { title, description } = a;
    add({ type, url: "u", ...a }, { _: "inputBotInlineResult", type, ...(title ? { title } : {}), ...(description ? { description } : {}), content: web("u", mime, attributes), ...more });
  };
  const sized = { _: "documentAttributeVideo", duration: 7, w: 8, h: 9 };
  byUrl("audio", { title: "T" }, "audio/mpeg", [{ _: "documentAttributeAudio", duration: 0, title: "T" }]);
  byUrl("audio", { title: "T", performer: "P", audioDuration: 7 }, "audio/mpeg", [{ _: "documentAttributeAudio", duration: 7, title: "T", performer: "P" }]);
  byUrl("voice", { title: "T", voiceDuration: 7 }, "audio/mpeg", [{ _: "documentAttributeAudio", duration: 7, voice: true }]);
  byUrl("video", { title: "T", description: "D", mimeType: "video/webm", videoDuration: 7, width: 8, height: 9 }, "video/webm", [sized]);
  byUrl("gif", { duration: 7, width: 8, height: 9 }, "image/gif", [sized]);
  byUrl("gif", { title: "T" }, "image/gif", [{ _: "documentAttributeVideo", duration: 0, w: 0, h: 0 }]);
  const picture = (w: number, h: number) => [{ _: "documentAttributeImageSize", w, h }];
  byUrl("photo", {}, "image/jpeg", picture(0, 0), { thumb: web("u", "image/jpeg", picture(0, 0)) });
  byUrl("photo", { title: "T", description: "D", width: 8, height: 9 }, "image/jpeg", picture(8, 9), { thumb: web("u", "image/jpeg", picture(8, 9)) });
  const file = (type: any) => serializeFileId({ type, dcId: 2, fileReference: new Uint8Array([1]), location: type === FileType.Photo ? { type: "photo", id: 61n, accessHash: 62n, source: { type: 1, fileType: type, thumbnailType: 109 } } : { type: "common", id: 61n, accessHash: 62n } } as any);
  const known = { id: 61n, access_hash: 62n, file_reference: new Uint8Array([1]) };
  // what the server calls them
  for (const [type, kind, is_, has] of [["cachedAudio", "audio", FileType.Audio, []], ["cachedDocument", "file", FileType.Document, ["title", "description"]], ["cachedGif", "gif", FileType.Animation, ["title"]], ["cachedMpeg4Gif", "gif", FileType.Animation, ["title"]], ["cachedVideo", "video", FileType.Video, ["title", "description"]], ["cachedVoice", "voice", FileType.VoiceNote, ["title"]], ["sticker", "sticker", FileType.Sticker, []]] as [string, string, any, string[]][]) {
    const named = Object.fromEntries(has.map((k) => [k, k]));
    for (const n of has.length ? [{}, named] : [{}]) add({ type, fileId: file(is_), ...n }, { _: "inputBotInlineResultDocument", type: kind, document: { _: "inputDocument", ...known }, ...n }, false);
  }
  add({ type: "cachedPhoto", fileId: file(FileType.Photo) }, { _: "inputBotInlineResultPhoto", type: "photo", photo: { _: "inputPhoto", ...known } }, false);
  return list;
}
method("answerInlineQuery", (x) => [x.a.id ?? "5000000000000000031", x.a.results ?? [article], x.p], B(() => ({ _: "messages.setInlineBotResults", query_id: 5000000000000000031n, results: [inlineArticle({})], cache_time: 300 })), yes, [
  ...queries,
  o("cacheTime", 0, put({ cache_time: 0 })),
  o("cacheTime", 9, put({ cache_time: 9 })),
  ...flags([["isPersonal", "private"], ["isGallery", "gallery"]]),
  o("nextOffset", "n", put({ next_offset: "n" })),
  o("button", { text: "b", url: "u" }, put({ switch_webview: { _: "inlineBotWebView", text: "b", url: "u" } })),
  o("button", { text: "b", startParameter: "s" }, put({ switch_pm: { _: "inlineBotSwitchPM", text: "b", start_param: "s" } })),
  arg("results", [], put({ results: [] })),
  arg("results", [article, { ...article, id: "2" }], put({ results: [inlineArticle({}), { ...inlineArticle({}), id: "2" }] })),
  ...results(
    [{ ...article, description: "d" }, inlineArticle({ description: "d" })],
    [{ ...article, thumbnailUrl: "t" }, inlineArticle({ thumb: { _: "inputWebDocument", url: "t", size: 0, mime_type: "image/jpeg", attributes: [] } })],
    [{ ...article, messageContent: { type: "text", text: "<b>m</b>", parseMode: "HTML" } }, inlineArticle({}, { entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] })],
    [{ ...article, messageContent: { type: "text", text: "m", linkPreview: { type: "input", isDisabled: true } } }, inlineArticle({}, { no_webpage: true })],
    [{ ...article, replyMarkup: { type: "inlineKeyboard", inlineKeyboard: [[{ type: "url", text: "b", url: "u" }]] } }, inlineArticle({}, { reply_markup: { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: [{ _: "keyboardButtonUrl", text: "b", url: "u" }] }] } })],
    [{ ...article, messageContent: { type: "contact", firstName: "F", phoneNumber: "1" } }, inlineArticle({ send_message: { _: "inputBotInlineMessageMediaContact", first_name: "F", last_name: "", phone_number: "1", vcard: "" } })],
    [{ ...article, messageContent: { type: "location", latitude: 1, longitude: 2, horizontalAccuracy: 3, livePeriod: 60, heading: 5, proximityAlertRadius: 6 } }, inlineArticle({ send_message: { _: "inputBotInlineMessageMediaGeo", geo_point: { _: "inputGeoPoint", lat: 1, long: 2, accuracy_radius: 3 }, heading: 5, period: 60, proximity_notification_radius: 6 } })],
    [{ ...article, messageContent: { type: "venue", latitude: 1, longitude: 2, title: "V", address: "A", foursquareId: "f", foursquareType: "g" } }, inlineArticle({ send_message: { _: "inputBotInlineMessageMediaVenue", geo_point: { _: "inputGeoPoint", lat: 1, long: 2 }, address: "A", provider: "foursquare", title: "V", venue_id: "f", venue_type: "g" } })],
    ...mediaResults(),
    [{ id: "1", type: "game", gameShortName: "g" }, { _: "inputBotInlineResultGame", id: "1", short_name: "g", send_message: { _: "inputBotInlineMessageGame" } }],
  ),
], nowhere);
method("answerPreCheckoutQuery", (x) => [x.a.id ?? "5000000000000000031", x.a.ok ?? true, x.p], B((x) => {
  if (x.a.ok === false && !x.p.error) x.invalid = true;
  return { _: "messages.setBotPrecheckoutResults", query_id: 5000000000000000031n, success: x.a.ok === false ? undefined : true };
}), yes, [...queries, arg("ok", false), o("error", "no", put({ error: "no" })), o("error", "")], { ...nowhere, finish: (x) => void (x.p.error === "no" && x.a.ok !== false && (x.skip = true), x.p.error === "" && x.a.ok !== false && (x.skip = true)) });
method("refundStarPayment", () => [12, "charge"], B(() => ({ _: "payments.refundStarsCharge", user_id: inputUser(BOB), charge_id: "charge" })), done, [], nowhere);
for (const [n, f] of [["Description", "description"], ["Name", "name"], ["ShortDescription", "about"]]) {
  const key = n[0].toLowerCase() + n.slice(1);
  method(`setMy${n}`, (x) => [x.p], B(() => ({ _: "bots.setBotInfo", lang_code: "" })), yes, [o(key, "v", put({ [f]: "v" })), o(key, "", put({ [f]: "" })), o("languageCode", "nl", put({ lang_code: "nl" }))], nowhere);
  method(`getMy${n}`, (x) => [x.p], B(() => ({ _: "bots.getBotInfo", lang_code: "" })), () => ({ _: "bots.botInfo", name: "the name", about: "the about", description: "the description" }), [o("languageCode", "nl", put({ lang_code: "nl" }))], { ...nowhere, result: is("the " + f) });
}
const lang = o("languageCode", "nl", put({ lang_code: "nl" }));
const scopes: Opt[] = ([
  [{ type: "default" }, { _: "botCommandScopeDefault" }],
  [{ type: "allPrivateChats" }, { _: "botCommandScopeUsers" }],
  [{ type: "allGroupChats" }, { _: "botCommandScopeChats" }],
  [{ type: "allChatAdministrators" }, { _: "botCommandScopeChatAdmins" }],
  ...[ALICE, GROUP, CHANNEL].flatMap((c): [any, any][] => [
    [{ type: "chat", chatId: c.id }, { _: "botCommandScopePeer", peer: c.input }],
    [{ type: "chatAdministrators", chatId: c.id }, { _: "botCommandScopePeerAdmins", peer: c.input }],
    [{ type: "chatMember", chatId: c.id, userId: 12 }, { _: "botCommandScopePeerUser", peer: c.input, user_id: inputUser(BOB) }],
  ]),
] as [any, any][]).map(([a, b]) => o("scope", a, put({ scope: b })));
const command = (c: string, more: any = {}) => ({ _: "botCommand", command: c, description: "d" + c, ...more });
method("setMyCommands", (x) => [x.a.list ?? [{ command: "a", description: "da" }], x.p], B(() => ({ _: "bots.setBotCommands", commands: [command("a")], lang_code: "", scope: { _: "botCommandScopeDefault" } })), yes, [
  lang,
  ...scopes,
  arg("list", [], put({ commands: [] })),
  arg("list", [{ command: "b", description: "db", isEphemeral: true }, { command: "a", description: "da" }], put({ commands: [command("b", { ephemeral: true }), command("a")] })),
], nowhere);
method("getMyCommands", (x) => [x.p], B(() => ({ _: "bots.getBotCommands", lang_code: "", scope: { _: "botCommandScopeDefault" } })), () => [command("a"), command("b")], [lang, ...scopes], { ...nowhere, result: sees((v) => v.map((c: any) => [c.command, c.description]), [["a", "da"], ["b", "db"]]) });
method("deleteMyCommands", (x) => [x.p], B(() => ({ _: "bots.resetBotCommands", lang_code: "", scope: { _: "botCommandScopeDefault" } })), yes, [lang, ...scopes], nowhere);
method("getManagedBotToken", () => [12], B(() => ({ _: "bots.exportBotToken", bot: inputUser(BOB), revoke: false })), () => ({ _: "bots.exportedBotToken", token: "t" }), [], { ...nowhere, result: is("t") });
method("revokeManagedBotToken", () => [12], B(() => ({ _: "bots.exportBotToken", bot: inputUser(BOB), revoke: true })), () => ({ _: "bots.exportedBotToken", token: "t" }), [], { ...nowhere, result: is("t") });
method("setManagedBotAccessSettings", (x) => [12, x.a.restricted ?? true, x.p], B(() => ({ _: "bots.editAccessSettings", bot: inputUser(BOB), restricted: true })), yes, [arg("restricted", false, (x) => void (delete x.req.restricted)), o("usersWithAccess", [11, 12], put({ add_users: [inputUser(ALICE), inputUser(BOB)] })), o("usersWithAccess", [], put({ add_users: [] }))], nowhere);
method("getManagedBotAccessSettings", () => [12], B(() => ({ _: "bots.getAccessSettings", bot: inputUser(BOB) })), () => ({ _: "bots.accessSettings", restricted: true, add_users: [user(11n)] }), [], nowhere);
method("sendCustomRequest", () => ["m", "{}"], B(() => ({ _: "bots.sendCustomRequest", custom_method: "m", params: { _: "dataJSON", data: "{}" } })), () => ({ _: "dataJSON", data: "[1]" }), [], { ...nowhere, result: is("[1]") });
method("sendMessageDraft", (x) => [x.chat.id, 7, "<b>d</b>", x.p], B(peer({ _: "messages.setTyping", action: { _: "sendMessageTextDraftAction", random_id: 1n, text: plain("<b>d</b>") } })), yes, [
  o("parseMode", "HTML", (x) => void (x.req.action = { ...x.req.action, text: bold("d") })),
  o("messageThreadId", 4, put({ top_msg_id: 4 })),
]);

// ---- stars and gifts
const balance = (ton: boolean) => ({ _: "payments.starsStatus", balance: ton ? { _: "starsTonAmount", amount: 5n } : { _: "starsAmount", amount: 5n, nanos: 0 }, chats: [], users: [] });
for (const ton of both) {
  const t = ton ? { ton: true } : {};
  method(ton ? "getTonBalance" : "getStarBalance", chatOnly, (x) => x.bot ? { _: "payments.getStarsTransactions", ...t, peer: x.chat.input, offset: "", limit: 1 } : { _: "payments.getStarsStatus", ...t, peer: x.chat.input }, () => balance(ton));
  method(ton ? "getTonTransactions" : "getStarTransactions", (x) => [x.chat.id, x.p], peer({ _: "payments.getStarsTransactions", ...t, offset: "", limit: 100 }), () => balance(ton), [
    ...limits,
    o("offset", "o", put({ offset: "o" })),
    ...flags([["isInbound", "inbound"], ["isOutbound", "outbound"], ["isAscending", "ascending"]]),
    ...(ton ? [] : [o("subscriptionId", "s", put({ subscription_id: "s" }))]),
  ]);
}
const gift = (id: bigint) => ({ _: "starGift", id, sticker: doc(77n, "image/webp", { _: "documentAttributeSticker", alt: "😀", stickerset: { _: "inputStickerSetEmpty" } }), stars: 10n, convert_stars: 8n });
method("getGifts", () => [], () => ({ _: "payments.getStarGifts", hash: 0 }), () => ({ _: "payments.starGifts", hash: 1, gifts: [gift(5000000000000000041n), gift(42n)], chats: [], users: [] }), [], { ...nowhere, result: sees(names, ["5000000000000000041", "42"]) });
method("getClaimedGifts", (x) => [x.chat.id, x.p], peer({ _: "payments.getSavedStarGifts", offset: "", limit: 100 }), () => ({ _: "payments.savedStarGifts", count: 0, gifts: [], chats: [], users: [] }), [
  ...limits,
  o("offset", "o", put({ offset: "o" })),
  o("collectionId", 3, put({ collection_id: 3 })),
  ...flags([["isHostedExcluded", "exclude_hosted"], ["isUnupgradableExcluded", "exclude_unupgradable"], ["isUpgradableExcluded", "exclude_upgradable"], ["isSortedByValue", "sort_by_value"], ["isUniqueExcluded", "exclude_unique"], ["isUnlimitedExcluded", "exclude_unlimited"], ["isSavedExcluded", "exclude_saved"], ["isUnsavedExcluded", "exclude_unsaved"], ["isWithColors", "peer_color_available"]]),
]);
const form = (q: any) => q._ === "payments.getPaymentForm" ? { _: "payments.paymentFormStarGift", form_id: 606n, invoice: { _: "invoice", currency: "XTR", prices: [] } } : undefined;
const paid = () => ({ _: "payments.paymentResult", updates: nothing() });
/** paid for */
const pays = (f: Req, business = false): Req => (x) => {
  const invoice = f(x);
  void business;
  x.before.push({ _: "payments.getPaymentForm", invoice });
  return { _: "payments.sendStarsForm", form_id: 606n, invoice };
};
const invoiced = (...fields: any[]) => (x: Exp) => void Object.assign(x.req.invoice, ...fields);
const message = (key: string): Opt[] => [o(key, "<b>m</b>", (x) => void (x.req.invoice.message = x.p.parseMode === "HTML" ? bold("m") : x.p.entities ? { ...plain("<b>m</b>"), entities: [{ _: "messageEntityBold", offset: 0, length: 2 }] } : plain("<b>m</b>"))), o("parseMode", "HTML"), o("entities", [{ type: "bold", offset: 0, length: 2 }])];
const noBothModes = (x: Exp) => void (x.p.parseMode && x.p.entities && (x.skip = true));
method("sendGift", (x) => [x.chat.id, "5000000000000000041", x.p], pays(peer({ _: "inputInvoiceStarGift", gift_id: 5000000000000000041n })), paid, [
  ...message("message"),
  o("isPrivate", true, invoiced({ hide_name: true })),
  o("isPrivate", false),
  o("upgrade", true, invoiced({ include_upgrade: true })),
  o("upgrade", false),
], { other: form, finish: noBothModes });
method("giftPremiumSubscription", (x) => [12, x.a.months ?? 3, x.p], B(pays(() => ({ _: "inputInvoicePremiumGiftStars", user_id: inputUser(BOB), months: 3 }))), paid, [arg("months", 12, invoiced({ months: 12 })), ...message("text")], { ...nowhere, other: form, finish: noBothModes });
const GIFTS: [any, any][] = [
  [{ type: "slug", slug: "s-1" }, { _: "inputSavedStarGiftSlug", slug: "s-1" }],
  [{ type: "chat", chatId: CHANNEL.id, id: "5000000000000000051" }, { _: "inputSavedStarGiftChat", peer: CHANNEL.input, saved_id: 5000000000000000051n }],
  [{ type: "user", messageId: 8 }, { _: "inputSavedStarGiftUser", msg_id: 8 }],
];
/** Bots do it for someone. */
const forSomeone = (f: Req): Req => (x) => (x.bot && !x.p.businessConnectionId && (x.invalid = true), f(x));
method("sellGift", (x) => [x.a.gift ?? GIFTS[0][0], x.p], forSomeone(() => ({ _: "payments.convertStarGift", stargift: GIFTS[0][1] })), yes, [...GIFTS.map(([a, b]) => arg("gift", a, put({ stargift: b }))), o("businessConnectionId", "bc", (x) => void (x.business = "bc", x.skip ||= !x.bot))], nowhere);
method("craftGifts", (x) => [x.a.gifts ?? [GIFTS[0][0]], x.p], forSomeone(() => ({ _: "payments.craftStarGift", stargift: [GIFTS[0][1]] })), done, [arg("gifts", GIFTS.map((g) => g[0]), put({ stargift: GIFTS.map((g) => g[1]) })), arg("gifts", [GIFTS[2][0], GIFTS[1][0]], put({ stargift: [GIFTS[2][1], GIFTS[1][1]] })), o("businessConnectionId", "bc", (x) => void (x.business = "bc", x.skip ||= !x.bot))], nowhere);
method("getGift", (x) => [x.a.slug ?? "gift-12"], U(() => ({ _: "payments.getUniqueStarGift", slug: "gift-12" })), () => ({ _: "payments.uniqueStarGift", gift: gift(42n), chats: [], users: [] }), [arg("slug", "Gift-12"), ...["gift", "gift-0", "gift-1x", "-1", "a".repeat(100) + "-1", "gift-", "gi_ft-1"].map((s) => arg("slug", s, bad))], { ...nowhere, result: sees((v) => v.id, "42") });
for (const price of [undefined, 25n]) {
  method(`transferGift for ${price}`, (x) => [x.chat.id, x.a.gift ?? GIFTS[2][0], x.p], forSomeone((x) => {
    const stargift = GIFTS.find((g) => g[0] === (x.a.gift ?? GIFTS[2][0]))![1];
    const said = x.p.transferPrice === undefined ? undefined : BigInt(x.p.transferPrice);
    if (!x.bot) x.before.push({ _: "payments.getSavedStarGift", stargift: [stargift] });
    // the price is only known to users
    if (!x.bot && said !== price || price === undefined && said === 0n) x.skip = true;
    if (said === undefined || said === 0n) return { _: "payments.transferStarGift", stargift, to_id: x.chat.input };
    const invoice = { _: "inputInvoiceStarGiftTransfer", stargift, to_id: x.chat.input };
    x.before.push({ _: "payments.getPaymentForm", invoice });
    return { _: "payments.sendStarsForm", form_id: 606n, invoice };
  }), (q) => q._ === "payments.transferStarGift" ? done() : paid(), [...GIFTS.map(([a]) => arg("gift", a)), o("transferPrice", 25), o("transferPrice", 0), ...(price === undefined ? [o("transferPrice", 24)] : [])], {
    other: (q) => q._ === "payments.getSavedStarGift" ? { _: "payments.savedStarGifts", count: 1, gifts: [{ _: "savedStarGift", date: 1, gift: gift(42n), transfer_stars: price }], chats: [], users: [] } : form(q),
  });
}
const collection = () => ({ _: "starGiftCollection", collection_id: 3, title: "t", gifts_count: 2, hash: 1n });
const collected = { result: sees((v) => [v.id, v.name], [3, "t"]) };
const giftLists = (key: string): Opt[] => [arg("gifts", GIFTS.map((g) => g[0]), put({ [key]: GIFTS.map((g) => g[1]) })), arg("gifts", [GIFTS[2][0], GIFTS[1][0]], put({ [key]: [GIFTS[2][1], GIFTS[1][1]] })), arg("gifts", [], put({ [key]: [] }))];
method("getGiftCollections", chatOnly, U(peer({ _: "payments.getStarGiftCollections", hash: 0n })), () => ({ _: "payments.starGiftCollections", collections: [collection()] }), [], { result: sees((v) => v.map((c: any) => c.id), [3]) });
method("createGiftCollection", (x) => [x.chat.id, "t", x.a.gifts ?? [GIFTS[0][0]]], U(peer({ _: "payments.createStarGiftCollection", title: "t", stargift: [GIFTS[0][1]] })), collection, giftLists("stargift"), collected);
method("setGiftCollectionName", (x) => [x.chat.id, 3, "t"], U(peer({ _: "payments.updateStarGiftCollection", collection_id: 3, title: "t" })), collection, [], collected);
for (const [n, f] of [["addGiftsToCollection", "add_stargift"], ["removeGiftsFromCollection", "delete_stargift"], ["reorderGiftsInCollection", "order"]]) method(n, (x) => [x.chat.id, 3, x.a.gifts ?? [GIFTS[0][0]]], U(peer({ _: "payments.updateStarGiftCollection", collection_id: 3, [f]: [GIFTS[0][1]] })), collection, giftLists(f), collected);
method("reorderGiftCollections", (x) => [x.chat.id, [3, 1, 2]], U(peer({ _: "payments.reorderStarGiftCollections", order: [3, 1, 2] })), yes);
method("deleteGiftCollection", (x) => [x.chat.id, 3], U(peer({ _: "payments.deleteStarGiftCollection", collection_id: 3 })), yes);

// ---- stories
const storyItem = (id: number, more: any = {}) => ({ _: "storyItem", id, date: 5, expire_date: 9, media: { _: "messageMediaPhoto", photo: photo(61n) }, ...more });
const storyMade = (_q: any, x: Exp) => nothing([{ _: "updateStory", peer: x.chat.peer, story: storyItem(9, { caption: "c" }) }]);
const madeStory = sees((v) => [v.id, v.chat.id, v.caption], (x: Exp) => [9, x.chat.id, "c"]);
const photoId = fileId(FileType.Photo), videoId = fileId(FileType.Video), stickerId = fileId(FileType.Sticker, 71n);
const storyVideo = (file: any, name: string, mime_type: string, duration: number, more: any = {}, nosound?: boolean) => ({ _: "inputMediaUploadedDocument", nosound_video: true, file, attributes: [{ _: "documentAttributeFilename", file_name: name }, { _: "documentAttributeVideo", w: 720, h: 1280, duration, nosound }], mime_type, ...more });
const attached = [known("inputDocument", 71n)];
const contents: [any, any, boolean?][] = [
  [{ type: "video", video: videoId, duration: 4 }, storyVideo({ _: "inputFileStoryDocument", id: known("inputDocument") }, "video.mp4", "video/mp4", 4)],
  [{ type: "video", video: videoId, duration: 4, isAnimation: true }, storyVideo({ _: "inputFileStoryDocument", id: known("inputDocument") }, "video.mp4", "video/mp4", 4, {}, true)],
  [{ type: "video", video: videoId, duration: 4, attachedStickerFileIds: [stickerId] }, storyVideo({ _: "inputFileStoryDocument", id: known("inputDocument") }, "video.mp4", "video/mp4", 4, { stickers: attached })],
  [{ type: "photo", photo: BYTES }, { _: "inputMediaUploadedPhoto", file: uploaded("x.bin") }],
  [{ type: "photo", photo: BYTES, attachedStickerFileIds: [stickerId] }, { _: "inputMediaUploadedPhoto", file: uploaded("x.bin"), stickers: attached }],
  [{ type: "video", video: BYTES, duration: 4 }, storyVideo(uploaded("x.bin"), "x.bin", "application/octet-stream", 4)],
  [{ type: "video", video: BYTES, duration: 4, isAnimation: true, attachedStickerFileIds: [stickerId] }, storyVideo(uploaded("x.bin"), "x.bin", "application/octet-stream", 4, { stickers: attached }, true)],
  [{ type: "photo", photo: "https://a.b/c.jpg" }, null, true],
  [{ type: "video", video: "http://a.b/c.mp4", duration: 4 }, null, true],
  [{ type: "photo", photo: BYTES, attachedStickerFileIds: [videoId] }, null, true],
];
const privacies: [any, any][] = [
  [{ type: "everyone", except: [] }, [{ _: "inputPrivacyValueAllowAll" }]],
  [{ type: "everyone", except: [11, 12] }, [{ _: "inputPrivacyValueDisallowUsers", users: [inputUser(ALICE), inputUser(BOB)] }, { _: "inputPrivacyValueAllowAll" }]],
  [{ type: "contacts", except: [] }, [{ _: "inputPrivacyValueAllowContacts" }]],
  [{ type: "contacts", except: [12] }, [{ _: "inputPrivacyValueDisallowUsers", users: [inputUser(BOB)] }, { _: "inputPrivacyValueAllowContacts" }]],
  [{ type: "closeFriends" }, [{ _: "inputPrivacyValueAllowCloseFriends" }]],
  [{ type: "only", only: [12, 11] }, [{ _: "inputPrivacyValueAllowUsers", users: [inputUser(BOB), inputUser(ALICE)] }]],
];
const position = { xPercentage: 1, yPercentage: 2, widthPercentage: 3, heightPercentage: 4, rotationAngle: 5 }, coordinates = { _: "mediaAreaCoordinates", x: 1, y: 2, w: 3, h: 4, rotation: 5 };
const areas: [any, any][] = [
  [{ type: "location", position, location: { latitude: 1, longitude: 2, horizontalAccuracy: 3 } }, { _: "mediaAreaGeoPoint", coordinates, geo: { _: "geoPoint", lat: 1, long: 2, access_hash: 0n, accuracy_radius: 3 } }],
  [{ type: "venue", position, venue: { location: { latitude: 1, longitude: 2 }, title: "V", address: "A", foursquareId: "f", foursquareType: "g" } }, { _: "mediaAreaVenue", coordinates, geo: { _: "geoPoint", lat: 1, long: 2, access_hash: 0n }, address: "A", provider: "foursquare", title: "V", venue_id: "f", venue_type: "g" }],
  [{ type: "reaction", position, reaction: { type: "emoji", emoji: "👍" }, isDark: true }, { _: "mediaAreaSuggestedReaction", coordinates, reaction: { _: "reactionEmoji", emoticon: "👍" }, dark: true }],
  [{ type: "reaction", position, reaction: { type: "custom", id: "5" }, isFlipped: true }, { _: "mediaAreaSuggestedReaction", coordinates, reaction: { _: "reactionCustomEmoji", document_id: 5n }, flipped: true }],
  [{ type: "link", position, link: "l" }, { _: "mediaAreaUrl", coordinates, url: "l" }],
  [{ type: "weather", position, emoji: "☀", temperature: 20.5, color: 7 }, { _: "mediaAreaWeather", coordinates, emoji: "☀", temperature_c: 20.5, color: 7 }],
  [{ type: "gift", position, slug: "s" }, { _: "mediaAreaStarGift", coordinates, slug: "s" }],
];
const caption: Opt[] = [
  o("caption", "<b>c</b>", (x) => x.p.parseMode === "HTML" ? put({ caption: "c", entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] })(x) : put({ caption: "<b>c</b>" }, x.p.captionEntities ? { entities: [{ _: "messageEntityBold", offset: 0, length: 2 }] } : {})(x)),
  o("parseMode", "HTML"),
  o("captionEntities", [{ type: "bold", offset: 0, length: 2 }]),
];
const named = (m: any, x: Exp): any => {
  const n = x.p.fileName;
  if (!n || m.file?._ !== "inputFile") return m;
  const mime = n.endsWith(".mp4") ? "video/mp4" : "video/webm";
  return { ...m, file: { ...m.file, name: n }, ...(m.attributes ? { mime_type: x.p.mimeType ?? mime, attributes: m.attributes.map((a: any) => a.file_name ? { ...a, file_name: n } : a) } : {}) };
};
const storyOpts = (place: (x: Exp) => any, c: Opt[]): Opt[] => [
  ...c,
  ...caption,
  ...privacies.map(([a, b]) => o("privacy", a, put({ privacy_rules: b }))),
  ...areas.map(([a, b]) => o("interactiveAreas", [a], put({ media_areas: [b] }))),
  o("interactiveAreas", [areas[4][0], areas[6][0]], put({ media_areas: [areas[4][1], areas[6][1]] })),
].filter(() => place);
const twoModes = (x: Exp) => void (x.p.parseMode && x.p.captionEntities && (x.skip = true));
const withName = (x: Exp) => {
  twoModes(x);
  const f = x.a.content ?? x.p.content;
  const src = f?.photo ?? f?.video;
  // names of files that are not given are made up
  if (src instanceof Uint8Array && !x.p.fileName) x.p.fileName = "x.mp4";
  if (x.req?.media) x.req.media = named(x.req.media, x);
};
method("createStory", (x) => [x.chat.id, structuredClone(x.a.content ?? { type: "photo", photo: photoId }), x.p], U(peer({ _: "stories.sendStory", random_id: 1n, media: { _: "inputMediaPhoto", id: known("inputPhoto") }, privacy_rules: [{ _: "inputPrivacyValueAllowAll" }], media_areas: [] })), storyMade, [
  ...storyOpts((x) => x, contents.map(([a, b, no]) => arg("content", a, no ? bad : (x) => void (x.req.media = structuredClone(b))))),
  o("fileName", "y.webm"),
  ...flags([["isContentProtected", "noforwards"], ["highlight", "pinned"], ["isRepostedStoryModified", "fwd_modified"]]),
  o("activeFor", 21600, put({ period: 21600 })),
  o("albumIds", [1, 2], put({ albums: [1, 2] })),
  o("forwardedFromChatId", CHANNEL.id, (x) => x.p.forwardedFromStoryId ? put({ fwd_from_id: CHANNEL.input })(x) : bad(x)),
  o("forwardedFromStoryId", 4, (x) => x.p.forwardedFromChatId ? put({ fwd_from_story: 4 })(x) : bad(x)),
], { finish: withName, result: madeStory });
method("editStory", (x) => [x.chat.id, x.a.id ?? 9, structuredClone(x.p)], U(peer({ _: "stories.editStory", id: 9 })), storyMade, [
  ...storyOpts((x) => x, contents.map(([a, b, no]) => o("content", a, no ? bad : (x) => void (x.req.media = structuredClone(b))))),
  o("content", { type: "photo", photo: photoId }, put({ media: { _: "inputMediaPhoto", id: known("inputPhoto") } })),
  o("caption", "", put({ caption: "", entities: [] })),
  o("interactiveAreas", [], put({ media_areas: [] })),
  ...ids,
], { finish: withName, result: madeStory });
const stories = (q: any) => ({ _: "stories.stories", count: 2, stories: q.id.map((i: number) => storyItem(i)), pinned_to_top: [], chats: [], users: [] });
method("getStories", (x) => [x.chat.id, x.a.ids ?? [5, 6]], U(peer({ _: "stories.getStoriesByID", id: [5, 6] })), stories, storyIds, { result: sees((v) => v.map((s: any) => [s.id, s.chat.id]), (x: Exp) => (x.a.ids ?? [5, 6]).map((i: number) => [i, x.chat.id])) });
method("getStory", (x) => [x.chat.id, x.a.id ?? 5], U(peer({ _: "stories.getStoriesByID", id: [5] })), stories, ids, { result: sees((v) => v.id, 5) });
method("getStory of none", (x) => [x.chat.id, 5], U(peer({ _: "stories.getStoriesByID", id: [5] })), () => ({ _: "stories.stories", count: 0, stories: [], chats: [], users: [] }), [], { result: is(null) });
method("deleteStories", (x) => [x.chat.id, x.a.ids ?? [5, 6]], U(peer({ _: "stories.deleteStories", id: [5, 6] })), () => [5, 6], storyIds);
method("deleteStory", (x) => [x.chat.id, x.a.id ?? 5], U(peer({ _: "stories.deleteStories", id: [5] })), () => [5], ids);
for (const pinned of both) {
  const [n, w] = pinned ? ["add", "To"] : ["remove", "From"];
  method(`${n}Stories${w}Highlights`, (x) => [x.chat.id, x.a.ids ?? [5, 6]], U(peer({ _: "stories.togglePinned", id: [5, 6], pinned })), () => [5, 6], storyIds);
  method(`${n}Story${w}Highlights`, (x) => [x.chat.id, x.a.id ?? 5], U(peer({ _: "stories.togglePinned", id: [5], pinned })), () => [5], ids);
}
const report: Opt[] = [o("text", "t", put({ message: "t" })), o("option", "_-8", put({ option: new Uint8Array([255, 239]) }))];
const reported = () => ({ _: "reportResultReported" });
method("reportStories", (x) => [x.chat.id, x.a.ids ?? [5, 6], x.p], U(peer({ _: "stories.report", id: [5, 6], message: "", option: new Uint8Array() })), reported, [...storyIds, ...report]);
method("reportStory", (x) => [x.chat.id, x.a.id ?? 5, x.p], U(peer({ _: "stories.report", id: [5], message: "", option: new Uint8Array() })), reported, [...ids, ...report]);

// ---- albums
const album = () => ({ _: "storyAlbum", album_id: 3, title: "t" });
const albumOf = { result: sees((v) => [v.id, v.name], [3, "t"]) };
const inAlbum = (key: string): Opt[] => [arg("ids", [9, 8], put({ [key]: [9, 8] })), arg("ids", [5, 0], bad), arg("ids", [-5], bad), arg("ids", [1.5], bad)];
method("createStoryAlbum", (x) => [x.chat.id, "t", x.a.ids ?? [5, 6]], U(peer({ _: "stories.createAlbum", title: "t", stories: [5, 6] })), album, inAlbum("stories"), albumOf);
method("setStoryAlbumName", (x) => [x.chat.id, 3, "t"], U(peer({ _: "stories.updateAlbum", album_id: 3, title: "t" })), album, [], albumOf);
for (const [n, f] of [["addStoriesToAlbum", "add_stories"], ["removeStoriesFromAlbum", "delete_stories"], ["reorderStoriesInAlbum", "order"]]) method(n, (x) => [x.chat.id, 3, x.a.ids ?? [5, 6]], U(peer({ _: "stories.updateAlbum", album_id: 3, [f]: [5, 6] })), album, inAlbum(f), albumOf);
for (const [n, f] of [["addStoryToAlbum", "add_stories"], ["removeStoryFromAlbum", "delete_stories"]]) method(n, (x) => [x.chat.id, 3, x.a.id ?? 5], U(peer({ _: "stories.updateAlbum", album_id: 3, [f]: [5] })), album, ids, albumOf);
method("getStoryAlbums", chatOnly, U(peer({ _: "stories.getAlbums", hash: 0n })), () => ({ _: "stories.albums", hash: 1n, albums: [album()] }), [], { result: sees((v) => v.map((a: any) => a.id), [3]) });
method("getStoriesInAlbum", (x) => [x.chat.id, 3, x.p], U(peer({ _: "stories.getAlbumStories", album_id: 3, offset: 0, limit: 100 })), () => ({ _: "stories.stories", count: 7, stories: [storyItem(5), storyItem(6)], pinned_to_top: [6], chats: [], users: [] }), [...limits, o("offset", 4, put({ offset: 4 }))], { result: sees((v) => [v.stories.map((s: any) => [s.id, s.chat.id]), v.count, v.pinnedStoryIds], (x: Exp) => [[[5, x.chat.id], [6, x.chat.id]], 7, [6]]) });
method("reorderStoryAlbums", (x) => [x.chat.id, [3, 1]], U(peer({ _: "stories.reorderAlbums", order: [3, 1] })), yes);
method("deleteStoryAlbum", (x) => [x.chat.id, 3], U(peer({ _: "stories.deleteAlbum", album_id: 3 })), yes);

// ---- sticker sets
const slugs: Opt[] = [
  ...["https://t.me/addstickers/slug", "http://t.me/addstickers/slug", "https://t.me/addstickers/slug/"].map((s) => arg("slug", s)),
  ...["https://t.me/addstickers/", "https://t.me/addstickers//", "https://t.me/slug", "https://x.me/addstickers/slug", "ftp://t.me/addstickers/slug", "/slug", "a/b", "https://t.me/addemoji/slug"].map((s) => arg("slug", s, bad)),
];
const set = (more: any = {}) => ({ _: "stickerSet", id: 8n, access_hash: 9n, title: "T", short_name: "slug", count: 0, hash: 1, ...more });
const stickerSet = (more: any = {}) => ({ _: "messages.stickerSet", set: set(more), packs: [], keywords: [], documents: [doc(77n, "image/webp", { _: "documentAttributeImageSize", w: 5, h: 5 }, { _: "documentAttributeSticker", alt: "😀", stickerset: { _: "inputStickerSetEmpty" } })] });
const isSet = { result: sees((v) => [v.id, v.title, v.name, v.stickers.length], ["8", "T", "slug", 1]) };
const short = { stickerset: { _: "inputStickerSetShortName", short_name: "slug" } };
const slugOf = (x: Exp) => x.a.slug ?? "slug";
/** The stickers are uploaded first, in the owner's name. */
const ups = (x: Exp, list: { name: string; bytes: Uint8Array; emoji: string; mime: string }[]) => {
  for (const s of list) x.before.push({ _: "messages.uploadMedia", peer: x.bot ? BOB.input : { _: "inputPeerSelf" }, media: { _: "inputMediaUploadedDocument", file: uploaded(s.name, s.bytes), attributes: [{ _: "documentAttributeSticker", alt: s.emoji, stickerset: { _: "inputStickerSetEmpty" } }], mime_type: s.mime } });
};
// what the n-th upload becomes
const ups2 = (q: any) => q._ === "messages.uploadMedia" ? { _: "messageMediaDocument", document: doc(BigInt(q.media.attributes[0].alt.codePointAt(0)), q.media.mime_type) } : undefined;
const of = (emoji: string) => docInput(BigInt(emoji.codePointAt(0)!));
const WEBP = new TextEncoder().encode("RIFF....WEBP");
const sticker = (emoji: string, more: any = {}) => ({ sticker: WEBP, emoji, fileName: `${emoji.codePointAt(0)}.webp`, mimeType: "image/webp", ...more });
const up = (emoji: string, mime = "image/webp") => ({ name: "file.webp", bytes: WEBP.slice(0, 4), emoji, mime });
const item = (emoji: string) => ({ _: "inputStickerSetItem", document: of(emoji), emoji });
const owner = (f: Req): Req => (x) => {
  if (x.bot !== (x.p.userId !== undefined)) x.invalid = true;
  return f(x);
};
const OWNER = o("userId", 12);
const me = (x: Exp) => x.bot ? inputUser(BOB) : { _: "inputUserSelf" };
method("createStickerSet", (x) => ["T", slugOf(x), structuredClone(x.a.list ?? [sticker("A")]), x.p], owner((x) => {
  ups(x, (x.a.list ?? [sticker("A")]).map((s: any) => up(s.emoji)));
  return { _: "stickers.createStickerSet", title: "T", user_id: me(x), short_name: "slug", stickers: (x.a.list ?? [sticker("A")]).map((s: any) => item(s.emoji)) };
}), () => stickerSet(), [OWNER, ...slugs, arg("list", [sticker("B"), sticker("A")]), ...flags([["isMask", "masks"], ["isCustomEmoji", "emojis"], ["isAdaptive", "text_color"]]), o("software", "s", put({ software: "s" }))], { ...nowhere, other: ups2, ...isSet });
method("checkStickerSetSlug", (x) => [slugOf(x)], () => ({ _: "stickers.checkShortName", short_name: "slug" }), yes, slugs, { ...nowhere, result: is(true) });
method("suggestStickerSetSlug", () => ["T"], U(() => ({ _: "stickers.suggestShortName", title: "T" })), () => ({ _: "stickers.suggestedShortName", short_name: "s" }), [], { ...nowhere, result: is("s") });
method("addStickerToStickerSet", (x) => [slugOf(x), structuredClone(sticker("A")), x.p], owner((x) => (ups(x, [up("A")]), { _: "stickers.addStickerToSet", ...short, sticker: item("A") })), () => stickerSet(), [OWNER, ...slugs], { ...nowhere, other: ups2 });
const theSticker = { sticker: known("inputDocument", 71n) };
method("removeStickerFromStickerSet", () => [stickerId], () => ({ _: "stickers.removeStickerFromSet", ...theSticker }), () => stickerSet(), [], nowhere);
method("replaceStickerEmoji", () => [stickerId, "😁"], () => ({ _: "stickers.changeSticker", ...theSticker, emoji: "😁" }), () => stickerSet(), [], nowhere);
method("changeStickerPositionInStickerSet", (x) => [stickerId, x.a.position ?? 2], () => ({ _: "stickers.changeStickerPosition", ...theSticker, position: 2 }), () => stickerSet(), [arg("position", 0, put({ position: 0 }))], nowhere);
method("replaceStickerInStickerSet", (x) => [stickerId, structuredClone(sticker("A")), x.p], owner((x) => (ups(x, [up("A")]), { _: "stickers.replaceSticker", ...theSticker, new_sticker: item("A") })), () => stickerSet(), [OWNER], { ...nowhere, other: ups2 });
method("deleteStickerSet", (x) => [slugOf(x)], () => ({ _: "stickers.deleteStickerSet", ...short }), yes, slugs, nowhere);
method("setStickerSetTitle", (x) => [slugOf(x), "N"], () => ({ _: "stickers.renameStickerSet", ...short, title: "N" }), () => stickerSet(), slugs, nowhere);
method("setCustomEmojiAsStickerSetThumbnail", (x) => [slugOf(x), "5000000000000000001"], () => ({ _: "stickers.setStickerSetThumb", ...short, thumb_document_id: 5000000000000000001n }), () => stickerSet(), slugs, nowhere);
method("setStickerSetThumbnail", (x) => [slugOf(x), WEBP.slice(), { ...x.p, fileName: "11088.webp", mimeType: "image/webp" }], owner((x) => (ups(x, [up("⭐️")]), { _: "stickers.setStickerSetThumb", ...short, thumb: of("⭐️") })), () => stickerSet(), [OWNER, ...slugs], { ...nowhere, other: ups2 });
for (const archived of both) method(archived ? "archiveStickerSet" : "unarchiveStickerSet", (x) => [slugOf(x)], U(() => ({ _: "messages.installStickerSet", ...short, archived })), () => ({ _: "messages.stickerSetInstallResultSuccess" }), slugs, nowhere);
method("addStickerSet", (x) => [slugOf(x)], U(() => ({ _: "messages.installStickerSet", ...short, archived: false })), () => ({ _: "messages.stickerSetInstallResultSuccess" }), slugs, nowhere);
method("removeStickerSet", (x) => [slugOf(x)], U(() => ({ _: "messages.uninstallStickerSet", ...short })), yes, slugs, nowhere);
method("getAddedStickerSets", () => [], U(() => ({ _: "messages.getAllStickers", hash: 0n })), () => ({ _: "messages.allStickers", hash: 1n, sets: [set({ id: 5n }), set({ id: 6n, masks: true, installed_date: 3 }), set({ id: 7n, emojis: true, archived: true })] }), [], { ...nowhere, result: sees((v) => v.map((s: any) => [s.id, s.type, s.addedAt, s.isArchived]), [["5", "regular", undefined, false], ["6", "mask", 3, false], ["7", "customEmoji", undefined, true]]) });

// ---- the account
const audioId = fileId(FileType.Audio), audioId2 = fileId(FileType.Audio, 72n), ringtone = fileId(FileType.Ringtone);
method("addMusicToProfile", (x) => [x.a.file ?? audioId, x.p], U(() => ({ _: "account.saveMusic", id: known("inputDocument") })), yes, [arg("file", videoId, bad), o("afterFileId", audioId2, put({ after_id: known("inputDocument", 72n) })), o("afterFileId", videoId, bad)], nowhere);
method("removeMusicFromProfile", (x) => [x.a.file ?? audioId], U(() => ({ _: "account.saveMusic", id: known("inputDocument"), unsave: true })), yes, [arg("file", videoId, bad)], nowhere);
method("getProfileMusic", (x) => [12, x.p], U(() => ({ _: "users.getSavedMusic", id: inputUser(BOB), hash: 0n, offset: 0, limit: 100 })), () => ({ _: "users.savedMusic", count: 1, documents: [doc(77n, "audio/mpeg", { _: "documentAttributeAudio", duration: 3, title: "x" })] }), [...limits, o("offset", 3, put({ offset: 3 }))], { ...nowhere, result: sees((v) => v.map((a: any) => [a.title, a.duration]), [["x", 3]]) });
method("addSavedNotificationSound", (x) => [ringtone, x.p], U(() => ({ _: "account.saveRingtone", id: known("inputDocument"), unsave: false })), () => ({ _: "account.savedRingtone" }), [], nowhere);
method("addSavedNotificationSound of a file", (x) => [BYTES.slice(), { fileName: x.a.name ?? "x.mp3" }], U((x) => {
  const file_name = x.a.name ?? "x.mp3";
  x.before.push({ _: "account.uploadRingtone", file: uploaded(file_name), file_name, mime_type: file_name.endsWith("mp3") ? "audio/mpeg" : "audio/ogg" });
  return { _: "account.saveRingtone", id: docInput(77n), unsave: false };
}), () => ({ _: "account.savedRingtone" }), [arg("name", "x.ogg")], { ...nowhere, other: (q) => q._ === "account.uploadRingtone" ? doc(77n, "audio/mpeg") : undefined });
method("removeSavedNotificationSound", (x) => [x.a.file ?? ringtone], U(() => ({ _: "account.saveRingtone", id: known("inputDocument"), unsave: true })), () => ({ _: "account.savedRingtone" }), [arg("file", videoId, bad)], nowhere);
method("deleteAccount", (x) => ["why", x.p], U(() => ({ _: "account.deleteAccount", reason: "why" })), yes, [PROOF, o("password", "wrong", (x) => proof(x, "wrong"))], nowhere);
method("resolvePhoneNumber", () => ["123"], U(() => ({ _: "contacts.resolvePhone", phone: "123" })), () => ({ _: "contacts.resolvedPeer", peer: { _: "peerUser", user_id: 12n }, chats: [], users: [user(12n)] }), [], { ...nowhere, result: sees((v) => v.id, 12) });
method("getProfilePhotos", (x) => [12, x.p], () => ({ _: "photos.getUserPhotos", user_id: inputUser(BOB), offset: 0, max_id: 0n, limit: 100 }), () => ({ _: "photos.photos", photos: [photo(61n)], users: [] }), [...limits, o("offset", 3, put({ offset: 3 }))], nowhere);
method("getCountryCode", () => [], U(() => ({ _: "help.getNearestDc" })), () => ({ _: "nearestDc", country: "NL", this_dc: 2, nearest_dc: 2 }), [], { ...nowhere, result: is("NL") });
method("getTimezones", () => [], U(() => ({ _: "help.getTimezonesList", hash: 0 })), () => ({ _: "help.timezonesList", timezones: [{ _: "timezone", id: "Europe/Amsterdam", name: "A", utc_offset: 3600 }], hash: 1 }), [], { ...nowhere, result: sees((v) => v.map((t: any) => t.id), ["Europe/Amsterdam"]) });
for (const on of both) method(on ? "enableBusinessBots" : "disableBusinessBots", chatOnly, U(K({ _: "account.toggleConnectedBotPaused", peer: ALICE.input, paused: !on }, null, null)), yes);
method("startTakeoutSession", (x) => [x.p], U((x) => (!!x.p.isExportingFiles !== (x.p.maxFileSize !== undefined) && (x.invalid = true), { _: "account.initTakeoutSession" })), () => ({ _: "account.takeout", id: 5000000000000000061n }), [
  ...flags([["isExportingContacts", "contacts"], ["isExportingPrivateChats", "message_users"], ["isExportingGroupChats", "message_chats"], ["isExportingSupergroupChats", "message_megagroups"], ["isExportingChannelChats", "message_channels"], ["isExportingFiles", "files"]]),
  o("maxFileSize", 9, put({ file_max_size: 9n })),
], { ...nowhere, result: is("5000000000000000061") });
const inTakeout = (f: Req): Req => (x) => (x.takeout = "77", f(x));
method("endTakeoutSession", (x) => ["77", x.p], U(inTakeout(() => ({ _: "account.finishTakeoutSession", success: true }))), yes, [o("isFailed", true, (x) => void (delete x.req.success)), o("isFailed", false)], nowhere);
method("getLeftChannels", (x) => ["77", x.p], U(inTakeout(() => ({ _: "channels.getLeftChannels", offset: 0 }))), () => ({ _: "messages.chats", chats: [channel(50n)] }), [o("offset", 4, put({ offset: 4 }))], nowhere);

// ---- lists of chats
const folder = (list: any[], folder_id: number) => ({ folder_peers: list.map((c) => ({ _: "inputFolderPeer", peer: c.input, folder_id })) });
for (const f of [1, 0]) {
  const n = f ? "archiveChat" : "unarchiveChat";
  method(n + "s", (x) => [x.a.chats ?? [11, -9]], U(() => ({ _: "folders.editPeerFolders", ...folder([ALICE, GROUP], f) })), done, [arg("chats", [CHANNEL.id, 11], put(folder([CHANNEL, ALICE], f)))], nowhere);
  method(n, chatOnly, U((x) => ({ _: "folders.editPeerFolders", ...folder([x.chat], f) })), done);
}
const dialogs = () => ({ _: "messages.dialogs", dialogs: [], messages: [], chats: [], users: [] });
method("getChats", (x) => [{ from: x.a.from, after: x.a.after, limit: x.a.limit }], U(() => ({ _: "messages.getDialogs", limit: 100, offset_id: 0, offset_date: 0, offset_peer: { _: "inputPeerEmpty" }, hash: 0n, folder_id: 0 })), dialogs, [
  arg("from", "archived", put({ folder_id: 1 })),
  arg("limit", 7, put({ limit: 7 })),
  arg("after", { chat: { id: 11 }, lastMessage: { id: 8, date: 9 } }, put({ offset_id: 8, offset_date: 9, offset_peer: ALICE.input })),
  arg("after", { chat: { id: CHANNEL.id } }, put({ offset_peer: CHANNEL.input })),
], { ...nowhere, result: is([]) });
method("getPinnedChats", (x) => [x.a.from ?? "main"], U(() => ({ _: "messages.getPinnedDialogs", folder_id: 0 })), () => ({ _: "messages.peerDialogs", dialogs: [], messages: [], chats: [], users: [], state: { _: "updates.state", pts: 1, qts: 0, date: 1, seq: 0, unread_count: 0 } }), [arg("from", "archived", put({ folder_id: 1 }))], { ...nowhere, result: is([]) });
const made = (chat: any) => (_q: any) => nothing([]) && { ...nothing([]), chats: [chat] };
const titles: Opt[] = [arg("title", " title\n"), arg("title", " ", bad), arg("title", "", bad)];
const newGroup = { _: "chat", id: 70n, title: "title", photo: { _: "chatPhotoEmpty" }, participants_count: 1, date: 1, version: 1, creator: true };
method("createGroup", (x) => [x.a.title ?? "title", x.p], U(() => ({ _: "messages.createChat", title: "title", users: [] })), () => ({ _: "messages.invitedUsers", updates: made(newGroup)(0), missing_invitees: [] }), [...titles, o("users", [11, 12], put({ users: [inputUser(ALICE), inputUser(BOB)] })), o("messageTtl", 86400, put({ ttl_period: 86400 })), o("messageTtl", 0)], { ...nowhere, result: sees((v) => v.id, -70) });
for (const t of ["Supergroup", "Channel"]) {
  method(`create${t}`, (x) => [x.a.title ?? "title", x.p], U(() => ({ _: "channels.createChannel", [t === "Channel" ? "broadcast" : "megagroup"]: true, title: "title", about: "" })), made({ ...channel(71n), megagroup: t === "Supergroup" || undefined, broadcast: t === "Channel" || undefined }), [...titles, o("description", "d", put({ about: "d" })), o("messageTtl", 86400, put({ ttl_period: 86400 })), ...(t === "Supergroup" ? flags([["isForum", "forum"]]) : [])], { ...nowhere, result: sees((v) => v.id, -1000000000071) });
}
method("setMessageTtl", (x) => [x.chat.id, x.a.ttl ?? 86400], U(peer({ _: "messages.setHistoryTTL", period: 86400 })), done, [arg("ttl", 0, put({ period: 0 }))]);
method("getCommonChats", (x) => [12, x.p], U(() => ({ _: "messages.getCommonChats", user_id: inputUser(BOB), max_id: 0n, limit: 100 })), () => ({ _: "messages.chats", chats: [channel(50n)] }), [...limits, o("fromChatId", -9, put({ max_id: 9n })), o("fromChatId", CHANNEL.id, put({ max_id: 50n })), o("fromChatId", 11, bad)], { ...nowhere, result: sees(names, [CHANNEL.id]) });
method("getChatMembers", (x) => [x.chat.id, x.p], C(() => ({ _: "channels.getParticipants", channel: inputChannel(CHANNEL), filter: { _: "channelParticipantsRecent" }, offset: 0, limit: 100, hash: 0n })), () => ({ _: "channels.channelParticipants", count: 1, participants: [{ _: "channelParticipant", user_id: 12n, date: 5 }], chats: [], users: [] }), [...limits, o("offset", 3, put({ offset: 3 }))], { chats: [CHANNEL], result: sees((v) => v.length, 1) });
method("getChatAdministrators", chatOnly, C(() => ({ _: "channels.getParticipants", channel: inputChannel(CHANNEL), filter: { _: "channelParticipantsAdmins" }, offset: 0, limit: 100, hash: 0n })), () => ({ _: "channels.channelParticipants", count: 1, participants: [{ _: "channelParticipantCreator", user_id: 12n, admin_rights: { _: "chatAdminRights" } }], chats: [], users: [] }), [], { chats: [CHANNEL], result: sees((v) => v.map((m: any) => m.status), ["creator"]) });
method("getChatMember", (x) => [x.chat.id, 12], C(() => ({ _: "channels.getParticipant", channel: inputChannel(CHANNEL), participant: BOB.input })), () => ({ _: "channels.channelParticipant", participant: { _: "channelParticipant", user_id: 12n, date: 5 }, chats: [], users: [] }), [], { chats: [CHANNEL], result: sees((v) => v.status, "member") });
const offs: Opt[] = [o("offsetId", 4, put({ offset_id: 4 })), o("offsetId", -4), o("offsetDate", 5, put({ offset_date: 5 })), o("offsetDate", -5)];
const page = (q: any, x: Exp) => ({ ...(x.chat === CHANNEL ? { _: "messages.channelMessages", pts: 1, count: 2 } : { _: "messages.messages" }), messages: [22, 21].map((id) => ({ _: "message", id, out: true, from_id: { _: "peerUser", user_id: SELF }, peer_id: x.chat.peer, date: 5, message: q._ })), topics: [], chats: [], users: [] });
const paged = sees((v) => v.map((m: any) => [m.id, m.chat.id]), (x: Exp) => [[22, x.chat.id], [21, x.chat.id]]);
method("getHistory", (x) => [x.chat.id, x.p], U(peer({ _: "messages.getHistory", offset_id: 0, offset_date: 0, add_offset: 0, limit: 100, max_id: 0, min_id: 0, hash: 0n })), page, [...limits, ...offs, o("addOffset", -3, put({ add_offset: -3 })), o("takeoutId", "77", (x) => void (x.takeout = "77"))], { result: paged });
method("getSavedMessages", (x) => [x.chat.id, x.p], U(peer({ _: "messages.getSavedHistory", offset_id: 0, offset_date: 0, add_offset: 0, limit: 100, max_id: 0, min_id: 0, hash: 0n })), page, [...limits, ...offs, o("addOffset", -3, put({ add_offset: -3 }))], { result: paged });
method("getSavedChats", (x) => [x.p], (() => ({ _: "messages.getSavedDialogs", hash: 0n, limit: 100, offset_date: 0, offset_id: 0, offset_peer: { _: "inputPeerEmpty" } })), () => ({ _: "messages.savedDialogs", dialogs: [], messages: [], chats: [], users: [] }), [...limits, ...offs, o("offsetChatId", 11, put({ offset_peer: ALICE.input })), ...flags([["excludePinned", "exclude_pinned"]])], nowhere);
method("getMessageReactions", (x) => [x.chat.id, 5, x.p], U(peer({ _: "messages.getMessageReactionsList", id: 5, limit: 100 })), () => ({ _: "messages.messageReactionsList", count: 0, reactions: [], chats: [], users: [] }), [...limits, o("offset", "o", put({ offset: "o" })), o("reaction", { type: "emoji", emoji: "👍" }, put({ reaction: { _: "reactionEmoji", emoticon: "👍" } }))]);
method("reportReaction", (x) => [x.chat.id, 5, 12], U(peer({ _: "messages.reportReaction", id: 5, reaction_peer: BOB.input })), yes);
method("openMiniApp", (x) => [12, x.chat.id, x.p], U(peer({ _: "messages.requestWebView", bot: inputUser(BOB), platform: "" })), () => ({ _: "webViewResultUrl", url: "u", query_id: 7n }), [
  ...flags([["isFromMenu", "from_bot_menu"], ["isSilent", "silent"]]),
  o("mode", "compact", put({ compact: true })),
  o("mode", "fullscreen", put({ fullscreen: true })),
  o("url", "u", put({ url: "u" })),
  o("startParameter", "s", put({ start_param: "s" })),
  o("themeParameters", "{}", put({ theme_params: { _: "dataJSON", data: "{}" } })),
  o("sendAs", CHANNEL.id, put({ send_as: CHANNEL.input })),
  o("replyTo", { type: "message", messageId: 5 }, put({ reply_to: { _: "inputReplyToMessage", reply_to_msg_id: 5 } })),
]);

// ---- communities
const community = { _: "community", id: 90n, access_hash: 90001n, title: "C", photo: { _: "chatPhotoEmpty" }, date: 1 };
const theCommunity = { _: "inputChannel", channel_id: 90n, access_hash: 90001n };
const inCommunity = { known: [community] };
method("createCommunity", (x) => ["C", x.chat.id, x.p], U(peer({ _: "communities.create", title: "C" })), made(community), [...flags([["isHidden", "hidden"]]), o("description", "d", put({ about: "d" }))], { chats: [GROUP, CHANNEL], result: sees((v) => v.name ?? v.title, "C") });
method("getJoinedCommunities", () => [], U(() => ({ _: "communities.getJoinedCommunities" })), () => ({ _: "messages.chats", chats: [community] }), [], { ...nowhere, result: sees((v) => v.length, 1) });
for (const unknown of both) {
  const the = (f: Req): Req => (x) => (unknown && (x.invalid = true), f(x));
  const more = unknown ? {} : inCommunity, id = 90, w = unknown ? " unknown" : "";
  method("deleteCommunity" + w, () => [id], U(the(() => ({ _: "channels.deleteChannel", channel: theCommunity }))), done, [], { ...nowhere, ...more });
  method("addChatToCommunity" + w, (x) => [id, x.chat.id, x.p], U(the(peer({ _: "communities.togglePeerLink", visible: true, community: theCommunity }))), yes, [o("isHidden", true, (x) => void (delete x.req.visible, x.req.hidden = true)), o("isHidden", false)], { chats: [GROUP, CHANNEL], ...more });
  method("removeChatFromCommunity" + w, (x) => [id, x.chat.id], U(the(peer({ _: "communities.togglePeerLink", deleted: true, community: theCommunity }))), yes, [], { chats: [GROUP, CHANNEL], ...more });
  method("showCommunityAsOneChat" + w, () => [id], U(the(() => ({ _: "communities.toggleCommunityCollapsedInDialogs", community: theCommunity, collapsed: true }))), done, [], { ...nowhere, ...more });
  method("showCommunityAsDifferentChats" + w, () => [id], U(the(() => ({ _: "communities.toggleCommunityCollapsedInDialogs", community: theCommunity }))), done, [], { ...nowhere, ...more });
}

export { specs };

export default {
  id: "X03",
  level: "model_checking",
  rule: "every method for contacts, polls, checklists, bots, payments, gifts, stories, sticker sets, takeouts, communities and lists of chats, called by users and bots with every combination of at most two of its parameters (three in thorough) out of the listed values, valid and not; the requests a model server receives, their number and order, against a table of what each call means; what the server says given back",
  assumptions: ["Parameters interact in pairs (in triples in thorough) at most."],
  exhaustive: true,
  scenarios: (tier) => {
    const all: Scenario[] = [];
    for (const bot of both) for (const s of specs(bot)) all.push(scenario(s, tier === "thorough" ? 3 : 2));
    return all;
  },
} satisfies CheckDef;
