// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Scenario } from "../lib/explore.ts";
import { SELF } from "../lib/client.ts";
import { ALICE, BOB, CHANNEL, type Exp, GROUP, inputChannel, inputUser, type Opt, PASSWORD, scenario, type Spec } from "../lib/calls.ts";
import { o, arg, put, bad, flags, both, U, B, C, K, peer, inChannel, nothing, yes, done, affected, history, invited, failed, is, chatOnly, withBob, nowhere, ids, limits, BUSINESS, table, proof } from "../lib/table.ts";
import { FileType, serializeFileId } from "/repo/types/_file_id.ts";

const { method, specs } = table();
// ---- messages
method("deleteMessages", (x) => [x.chat.id, x.a.ids ?? [5, 6], x.p], K({ _: "messages.deleteMessages", id: [5, 6], revoke: true }, { _: "messages.deleteMessages", id: [5, 6], revoke: true }, { _: "channels.deleteMessages", channel: inputChannel(CHANNEL), id: [5, 6] }), affected, [
  arg("ids", [9], put({ id: [9] })),
  arg("ids", [5, 0], bad),
  arg("ids", [-5], bad),
  arg("ids", [1.5], bad),
  o("isOnlyForMe", true, (x) => void (delete x.req.revoke)),
  o("isOnlyForMe", false),
]);
method("deleteMessage", (x) => [x.chat.id, x.a.id ?? 5, x.p], K({ _: "messages.deleteMessages", id: [5], revoke: true }, { _: "messages.deleteMessages", id: [5], revoke: true }, { _: "channels.deleteMessages", channel: inputChannel(CHANNEL), id: [5] }), affected, [...ids, o("isOnlyForMe", true, (x) => void (delete x.req.revoke))]);
method("deleteEphemeralMessage", (x) => [x.chat.id, 12, x.a.id ?? 5], peer({ _: "ephemeral.deleteMessage", receiver_id: inputUser(BOB), id: 5 }), yes, ids);
method("deleteScheduledMessages", (x) => [x.chat.id, x.a.ids ?? [5, 6]], U(peer({ _: "messages.deleteScheduledMessages", id: [5, 6] })), done, [arg("ids", [5, 0], bad)]);
method("deleteScheduledMessage", (x) => [x.chat.id, x.a.id ?? 5], U(peer({ _: "messages.deleteScheduledMessages", id: [5] })), done, ids);
const message = (x: Exp, id: number, more: any = {}) => ({ _: "message", out: true, id, from_id: { _: "peerUser", user_id: SELF }, peer_id: x.chat.peer, date: 5, message: "m", ...more });
const newMessage = (x: Exp, id: number, n = 1) => ({ _: x.chat === CHANNEL ? "updateNewChannelMessage" : "updateNewMessage", message: message(x, id), pts: 1 + n, pts_count: 1 });
const messageIds = (...want: number[]) => (v: any, x: Exp) => check(JSON.stringify(v.map((m: any) => [m.id, m.chat.id])) === JSON.stringify(want.map((i) => [i, x.chat.id])), () => `the call gives ${JSON.stringify(v)} instead of the messages ${want}`, "the messages given");
method("sendScheduledMessages", (x) => [x.chat.id, [5, 6]], U(peer({ _: "messages.sendScheduledMessages", id: [5, 6] })), (_q, x) => nothing([newMessage(x, 21), newMessage(x, 22, 2)]), [], { result: messageIds(21, 22) });
method("sendScheduledMessage", (x) => [x.chat.id, x.a.id ?? 5], U(peer({ _: "messages.sendScheduledMessages", id: [5] })), (_q, x) => nothing([newMessage(x, 21)]), ids, { result: (v, x) => messageIds(21)([v], x) });
method("getScheduledMessages", chatOnly, U(peer({ _: "messages.getScheduledHistory", hash: 0n })), (_q, x) => ({ _: "messages.messages", messages: [message(x, 21), message(x, 22)], topics: [], chats: [], users: [] }), [], { result: messageIds(21, 22) });
method("deleteChatMemberMessages", withBob, U(inChannel({ _: "channels.deleteParticipantHistory", participant: BOB.input })), history);
method("pinMessage", (x) => [x.chat.id, x.a.id ?? 5, x.p], peer({ _: "messages.updatePinnedMessage", id: 5 }), done, [...ids, ...flags([["isSilent", "silent"]]), o("isForBothSides", false, put({ pm_oneside: true })), o("isForBothSides", true), BUSINESS]);
method("unpinMessage", (x) => [x.chat.id, x.a.id ?? 5, x.p], peer({ _: "messages.updatePinnedMessage", id: 5, unpin: true }), done, [...ids, BUSINESS]);
method("unpinMessages", (x) => [x.chat.id, x.p], peer({ _: "messages.unpinAllMessages" }), history, [o("topicId", 7, put({ top_msg_id: 7 }))]);
const REACTIONS: [any, any][] = [
  [{ type: "emoji", emoji: "👍" }, { _: "reactionEmoji", emoticon: "👍" }],
  [{ type: "custom", id: "5000000000000000001" }, { _: "reactionCustomEmoji", document_id: 5000000000000000001n }],
  [{ type: "paid" }, { _: "reactionPaid" }],
];
method("setReactions", (x) => [x.chat.id, x.a.id ?? 5, x.a.reactions ?? [], x.p], peer({ _: "messages.sendReaction", msg_id: 5, reaction: [] }), done, [
  ...ids,
  ...REACTIONS.flatMap(([a, b]) => [arg("reactions", [a], put({ reaction: [b] })), ...REACTIONS.map(([c, d]) => arg("reactions", [a, c], put({ reaction: [b, d] })))]),
  ...flags([["isBig", "big"], ["isAddedToRecents", "add_to_recent"]]).filter((f) => f.key === "isBig"),
]);
const withReactions = (...chosen: number[]) => (q: any, x: Exp) =>
  /getMessages$/.test(q._)
    ? {
      _: x.chat === CHANNEL ? "messages.channelMessages" : "messages.messages",
      ...(x.chat === CHANNEL ? { pts: 1, count: 1 } : {}),
      topics: [],
      messages: [message(x, q.id[0].id, { reactions: { _: "messageReactions", results: REACTIONS.map(([, r], i) => ({ _: "reactionCount", reaction: r, count: 3, chosen_order: chosen.includes(i) ? chosen.indexOf(i) : undefined })) } })],
      chats: [],
      users: [],
      topics: [],
    }
    : undefined;
for (const chosen of [[], [0], [1], [0, 1], [0, 1, 2]]) {
  const already = chosen.map((i) => REACTIONS[i][1]);
  REACTIONS.forEach(([r, t], i) => {
    const had = chosen.includes(i);
    // reactions are a set; in which order they are told is up to the client
    const sorted = (l: any[]) => REACTIONS.map((v) => v[1]).filter((v) => l.includes(v));
    method(`addReaction ${i} to ${chosen}`, (x) => [x.chat.id, 5, r, x.p], had ? () => null : peer({ _: "messages.sendReaction", msg_id: 5, reaction: sorted([...already, t]) }), done, [...flags([["isBig", "big"]]).slice(0, had ? 0 : 2)], { other: withReactions(...chosen), reorder: "reaction" });
    method(`removeReaction ${i} of ${chosen}`, (x) => [x.chat.id, 5, r], had ? peer({ _: "messages.sendReaction", msg_id: 5, reaction: sorted(already.filter((v) => v !== t)) }) : () => null, done, [], { other: withReactions(...chosen), reorder: "reaction" });
  });
}
method("removeUserReaction", (x) => [x.chat.id, 5, 12], peer({ _: "messages.deleteParticipantReaction", msg_id: 5, participant: BOB.input }), done);
method("removeUserReactions", (x) => [x.chat.id, 12], peer({ _: "messages.deleteParticipantReactions", participant: BOB.input }), yes);
method("clearRecentReactions", () => [], U(() => ({ _: "messages.clearRecentReactions" })), yes, [], nowhere);
method("setDefaultReaction", (x) => [x.a.reaction ?? REACTIONS[0][0]], U(() => ({ _: "messages.setDefaultReaction", reaction: REACTIONS[0][1] })), yes, REACTIONS.map(([a, b]) => arg("reaction", a, put({ reaction: b }))), nowhere);
const ACTIONS: [string, string, boolean?][] = [
  ["typing", "Typing"],
  ["uploadingPhoto", "UploadPhoto", true],
  ["recordingVideo", "RecordVideo"],
  ["uploadingVideo", "UploadVideo", true],
  ["recordingVoice", "RecordAudio"],
  ["uploadingAudio", "UploadAudio", true],
  ["uploadingDocument", "UploadDocument", true],
  ["choosingSticker", "ChooseSticker"],
  ["choosingLocation", "GeoLocation"],
  ["recordingVideoNote", "RecordRound"],
  ["uploadingVideoNote", "UploadRound", true],
  ["playingGame", "GamePlay"],
  ["cancel", "Cancel"],
];
method("sendChatAction", (x) => [x.chat.id, x.a.action ?? { type: "typing" }, x.p], peer({ _: "messages.setTyping", action: { _: "sendMessageTypingAction" } }), yes, [
  ...ACTIONS.flatMap(([type, t, progress]) => [
    arg("action", { type }, put({ action: { _: `sendMessage${t}Action`, ...(progress ? { progress: 0 } : {}) } })),
    ...(progress ? [arg("action", { type, progress: 60 }, put({ action: { _: `sendMessage${t}Action`, progress: 60 } }))] : []),
  ]),
  arg("action", { type: "dancing" }, bad),
  o("messageThreadId", 7, put({ top_msg_id: 7 })),
  BUSINESS,
]);
const found = (_q: any, x: Exp) => ({ _: "messages.messagesSlice", count: 9, messages: [message(x, 21), message(x, 22)], chats: [], users: [], topics: [] });
const SEARCH: [string, string][] = [["empty", "Empty"], ["animations", "Gif"], ["audios", "Music"], ["documents", "Document"], ["photos", "Photos"], ["videos", "Video"], ["voiceMessages", "Voice"], ["photosAndVideos", "PhotoVideo"], ["links", "Url"], ["chatPhotos", "ChatPhotos"], ["videoNotes", "RoundVideo"], ["voiceMessagesAndVideoNotes", "RoundVoice"], ["mentions", "MyMentions"], ["pinned", "Pinned"]];
method("searchMessages", (x) => [x.p], U(() => ({ _: "messages.search", peer: { _: "inputPeerEmpty" }, q: "", filter: { _: "inputMessagesFilterEmpty" }, min_date: 0, max_date: 0, offset_id: 0, add_offset: 0, limit: 100, max_id: 0, min_id: 0, hash: 0n })), found, [
  ...SEARCH.map(([k, f]) => o("filter", k, put({ filter: { _: "inputMessagesFilter" + f } }))),
  ...limits,
  o("query", "what", put({ q: "what" })),
  o("chatId", 12, put({ peer: BOB.input })),
  o("chatId", CHANNEL.id, put({ peer: CHANNEL.input })),
  o("from", 12, put({ from_id: BOB.input })),
  o("offset", 44, put({ offset_id: 44 })),
  o("addOffset", -5, put({ add_offset: -5 })),
  o("threadId", 7, put({ top_msg_id: 7 })),
], { chats: [ALICE], result: (v, x) => (messageIds(21, 22)(v.messages, x), is(9)(v.count)) });
method("readMessages", (x) => [x.chat.id, 8], U(K({ _: "messages.readHistory", peer: ALICE.input, max_id: 8 }, { _: "messages.readHistory", peer: GROUP.input, max_id: 8 }, { _: "channels.readHistory", channel: inputChannel(CHANNEL), max_id: 8 })), (q) => q._.startsWith("channels") ? true : affected());
method("getMessageReadDate", (x) => [x.chat.id, 5], U(peer({ _: "messages.getOutboxReadDate", msg_id: 5 })), () => ({ _: "outboxReadDate", date: 123 }), [], { result: is(123) });
method("getMessageViewers", (x) => [x.chat.id, 5], U(peer({ _: "messages.getMessageReadParticipants", msg_id: 5 })), () => [{ _: "readParticipantDate", user_id: 12n, date: 9 }], [], { result: (v) => check(v.length === 1 && v[0].userId === 12 && v[0].viewedAt === 9, () => JSON.stringify(v), "what the call gives") });
method("sendScreenshotNotification", (x) => [x.chat.id, 5], U(peer({ _: "messages.sendScreenshotNotification", reply_to: { _: "inputReplyToMessage", reply_to_msg_id: 5 }, random_id: 1n })), done);
const views = () => ({ _: "messages.messageViews", views: [{ _: "messageViews", views: 4, forwards: 2, replies: { _: "messageReplies", replies: 3, replies_pts: 1 } }, { _: "messageViews" }].slice(0, 2), chats: [], users: [] });
method("viewMessages", (x) => [x.chat.id, [5, 6]], U(peer({ _: "messages.getMessagesViews", id: [5, 6], increment: true })), views);
method("viewMessage", (x) => [x.chat.id, 5], U(peer({ _: "messages.getMessagesViews", id: [5], increment: true })), views);
method("getMessagesCounters", (x) => [x.chat.id, [5, 6]], U(peer({ _: "messages.getMessagesViews", id: [5, 6], increment: false })), views, [], { result: is([{ views: 4, replies: 3, forwards: 2 }, { views: 0, replies: 0, forwards: 0 }]) });
method("getMessageCounters", (x) => [x.chat.id, 5], U(peer({ _: "messages.getMessagesViews", id: [5], increment: false })), views, [], { result: is({ views: 4, replies: 3, forwards: 2 }) });
const translated = (q: any) => ({ _: "messages.translateResult", result: (q.id ?? q.text).map((_: any, i: number) => ({ _: "textWithEntities", text: `t${i}`, entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] })) });
const T = (i: number) => ({ text: `t${i}`, entities: [{ type: "bold", offset: 0, length: 1 }] });
const same = (v: any, want: any) => check(JSON.stringify(v) === JSON.stringify(want) || JSON.stringify(v?.map?.((t: any) => [t.text, t.entities.map((e: any) => [e.type, e.offset, e.length])])) === JSON.stringify(want.map((t: any) => [t.text, t.entities.map((e: any) => [e.type, e.offset, e.length])])), () => `the call gives ${JSON.stringify(v)}`, "what the call gives");
const tones = ["formal", "neutral", "casual"].map((t) => o("tone", t, put({ tone: t })));
const bold = { text: "a", entities: [{ type: "bold", offset: 0, length: 1 }] }, boldTl = { _: "textWithEntities", text: "a", entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] };
method("translateTexts", (x) => ["nl", [bold, { text: "b", entities: [] }], x.p], U(() => ({ _: "messages.translateText", to_lang: "nl", text: [boldTl, { _: "textWithEntities", text: "b" }] })), translated, tones, { ...nowhere, result: (v) => same(v, [T(0), T(1)]) });
method("translateText", (x) => ["nl", bold, x.p], U(() => ({ _: "messages.translateText", to_lang: "nl", text: [boldTl] })), translated, tones, { ...nowhere, result: (v) => same([v], [T(0)]) });
method("translateMessages", (x) => ["nl", x.chat.id, [5, 6], x.p], U(peer({ _: "messages.translateText", to_lang: "nl", id: [5, 6] })), translated, tones, { result: (v) => same(v, [T(0), T(1)]) });
method("translateMessage", (x) => ["nl", x.chat.id, 5, x.p], U(peer({ _: "messages.translateText", to_lang: "nl", id: [5] })), translated, tones, { result: (v) => same([v], [T(0)]) });
method("saveDraft", (x) => [x.chat.id, "<b>d</b>", x.p], U(peer({ _: "messages.saveDraft", message: "<b>d</b>" })), yes, [
  o("parseMode", "HTML", put({ message: "d", entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] })),
  o("effectId", "77", put({ effect: 77n })),
  o("isMediaAboveText", true, put({ invert_media: true })),
  o("isLinkPreviewDisabled", true, put({ no_webpage: true })),
  o("replyTo", { type: "message", messageId: 5 }, put({ reply_to: { _: "inputReplyToMessage", reply_to_msg_id: 5 } })),
]);
method("clearDrafts", () => [], U(() => ({ _: "messages.clearAllDrafts" })), yes, [], nowhere);
const sticker = serializeFileId({ type: FileType.Sticker, dcId: 2, fileReference: new Uint8Array([7]), location: { type: "common", id: 21n, accessHash: -22n } });
const animation = serializeFileId({ type: FileType.Animation, dcId: 2, fileReference: new Uint8Array([7]), location: { type: "common", id: 21n, accessHash: -22n } });
const known = { _: "inputDocument", id: 21n, access_hash: -22n, file_reference: new Uint8Array([7]) };
for (const on of both) {
  method(on ? "addStickerToFavorites" : "removeStickerFromFavorites", (x) => [x.a.file ?? sticker], U(() => ({ _: "messages.faveSticker", id: known, unfave: !on })), yes, [arg("file", animation, bad)], nowhere);
  method(on ? "addStickerToRecents" : "removeStickerFromRecents", (x) => [x.a.file ?? sticker], U(() => ({ _: "messages.saveRecentSticker", id: known, unsave: !on })), yes, [arg("file", animation, bad)], nowhere);
  method(on ? "saveAnimation" : "unsaveAnimation", (x) => [x.a.file ?? animation], U(() => ({ _: "messages.saveGif", id: known, unsave: !on })), yes, [arg("file", sticker, bad)], nowhere);
}
method("clearRecentStickers", () => [], U(() => ({ _: "messages.clearRecentStickers" })), yes, [], nowhere);

// ---- chats
for (const yes_ of both) {
  const approved = yes_ ? { approved: true } : {};
  method(yes_ ? "approveJoinRequest" : "declineJoinRequest", (x) => [x.chat.id, 12], peer({ _: "messages.hideChatJoinRequest", user_id: inputUser(BOB), ...approved }), done);
  method(yes_ ? "approveJoinRequests" : "declineJoinRequests", (x) => [x.chat.id, x.p], U(peer({ _: "messages.hideAllChatJoinRequests", ...approved })), done, [o("inviteLink", "https://t.me/+x", put({ link: "https://t.me/+x" }))]);
  method(yes_ ? "enableJoinRequests" : "disableJoinRequests", chatOnly, U(inChannel({ _: "channels.toggleJoinRequest", enabled: yes_ })), done);
  method(yes_ ? "hideMemberList" : "showMemberList", chatOnly, U(inChannel({ _: "channels.toggleParticipantsHidden", enabled: yes_ })), done);
  method(yes_ ? "enableAntispam" : "disableAntispam", chatOnly, U(inChannel({ _: "channels.toggleAntiSpam", enabled: yes_ })), done);
  method(yes_ ? "enableSharing" : "disableSharing", chatOnly, U(peer({ _: "messages.toggleNoForwards", enabled: !yes_ })), done);
  method(yes_ ? "enableChatHistoryForNewMembers" : "disableChatHistoryForNewMembers", chatOnly, U(inChannel({ _: "channels.togglePreHistoryHidden", enabled: !yes_ })), done);
  method(yes_ ? "markChatAsUnread" : "markChatAsRead", chatOnly, U((x) => ({ _: "messages.markDialogUnread", peer: { _: "inputDialogPeer", peer: x.chat.input }, ...(yes_ ? { unread: true } : {}) })), yes);
  method(yes_ ? "hideGeneralTopic" : "showGeneralTopic", chatOnly, peer({ _: "messages.editForumTopic", topic_id: 1, hidden: yes_ }), done);
  const topic: Opt[] = [arg("topic", 1, put({ topic_id: 1 })), arg("topic", 0, bad), arg("topic", -1, bad), arg("topic", 1.5, bad)];
  method(yes_ ? "closeTopic" : "reopenTopic", (x) => [x.chat.id, x.a.topic ?? 7], peer({ _: "messages.editForumTopic", topic_id: 7, closed: yes_ }), done, topic);
  method(yes_ ? "pinTopic" : "unpinTopic", (x) => [x.chat.id, x.a.topic ?? 7], peer({ _: "messages.updatePinnedForumTopic", topic_id: 7, pinned: yes_ }), done, topic);
}
method("deleteTopic", (x) => [x.chat.id, x.a.topic ?? 7], peer({ _: "messages.deleteTopicHistory", top_msg_id: 7 }), history, [arg("topic", 2, put({ top_msg_id: 2 })), arg("topic", 1, bad), arg("topic", 0, bad), arg("topic", 2.5, bad)]);
const topicMade = (action: any) => (_q: any, x: Exp) => nothing([{ _: "updateNewChannelMessage", message: { _: "messageService", id: 31, out: true, from_id: { _: "peerUser", user_id: SELF }, peer_id: x.chat.peer, date: 5, action }, pts: 2, pts_count: 1 }]);
method("createTopic", (x) => [x.chat.id, x.a.title ?? "topic", x.p], peer({ _: "messages.createForumTopic", title: "topic", random_id: 1n }), topicMade({ _: "messageActionTopicCreate", title: "topic", icon_color: 1 }), [
  arg("title", " topic\n"),
  arg("title", " ", bad),
  o("color", 0x6FB9F0, put({ icon_color: 0x6FB9F0 })),
  o("customEmojiId", "77", put({ icon_emoji_id: 77n })),
  o("sendAs", CHANNEL.id, put({ send_as: CHANNEL.input }), { only: "user" }),
], { chats: [CHANNEL] });
const editedTopic = (q: any, x: Exp) => {
  if (q._ === "channels.getMessages") {
    const created = { _: "messageService", id: 7, from_id: { _: "peerUser", user_id: 12n }, peer_id: x.chat.peer, date: 4, action: { _: "messageActionTopicCreate", title: "old", icon_color: 9 } };
    return { _: "messages.channelMessages", pts: 1, count: 1, messages: [created], topics: [], chats: [], users: [] };
  }
  const up = topicMade({ _: "messageActionTopicEdit", title: "topic", icon_emoji_id: q.icon_emoji_id })(q, x);
  up.updates[0].message.reply_to = { _: "messageReplyHeader", forum_topic: true, reply_to_msg_id: 7 };
  return up;
};
method("editTopic", (x) => [x.chat.id, x.a.topic ?? 7, x.a.title ?? "topic", x.p], peer({ _: "messages.editForumTopic", topic_id: 7, title: "topic" }), editedTopic, [arg("title", " topic\n"), arg("title", " ", bad), arg("topic", 1, bad), arg("topic", 7.5, bad), o("customEmojiId", "77", put({ icon_emoji_id: 77n }))], {
  chats: [CHANNEL],
  other: (q, x) => /getMessages$/.test(q._) ? editedTopic(q, x) : undefined,
  result: (v, x) => check(v.id === 7 && v.name === "topic" && v.date === 4 && v.color === 9 && v.creator.id === 12 && v.customEmojiId === x.p.customEmojiId, () => JSON.stringify(v), "what the call gives"),
});
const topics = () => ({ _: "messages.forumTopics", count: 0, topics: [], messages: [], chats: [], users: [], pts: 1 });
method("getTopics", (x) => [x.chat.id, x.p], U(peer({ _: "messages.getForumTopics", offset_id: 0, offset_date: 0, offset_topic: 0, limit: 100 })), topics, [...limits, o("offsetId", 4, put({ offset_id: 4 })), o("offsetDate", 5, put({ offset_date: 5 })), o("offsetTopicId", 6, put({ offset_topic: 6 }))], { chats: [CHANNEL] });
method("getTopicsById", (x) => [x.chat.id, x.a.topics ?? [1, 7]], U(peer({ _: "messages.getForumTopicsByID", topics: [1, 7] })), topics, [arg("topics", [1, 0], bad)], { chats: [CHANNEL] });
method("getTopic", (x) => [x.chat.id, x.a.topic ?? 7], U(peer({ _: "messages.getForumTopicsByID", topics: [7] })), topics, [arg("topic", 0, bad)], { chats: [CHANNEL], result: is(null) });
method("getJoinRequests", (x) => [x.chat.id, x.p], U(peer({ _: "messages.getChatInviteImporters", requested: true, offset_date: 0, offset_user: { _: "inputUserEmpty" }, limit: 100 })), () => ({ _: "messages.chatInviteImporters", count: 1, importers: [{ _: "chatInviteImporter", requested: true, user_id: 12n, date: 9 }], users: [] }), [
  ...limits,
  o("inviteLink", "l", put({ link: "l" })),
  o("search", "s", (x) => x.p.inviteLink === undefined ? put({ q: "s" })(x) : bad(x)),
  o("fromUserId", 12, put({ offset_user: inputUser(BOB) })),
  o("fromDate", 44, put({ offset_date: 44 })),
], { result: (v, x) => check(v.length === 1 && v[0].from.id === 12 && v[0].chat.id === x.chat.id && v[0].date === 9, () => JSON.stringify(v), "what the call gives"), chats: [GROUP, CHANNEL] });
const invite = (more: any = {}) => ({ _: "chatInviteExported", link: "https://t.me/+x", admin_id: SELF, date: 5, ...more });
method("createInviteLink", (x) => [x.chat.id, x.p], peer({ _: "messages.exportChatInvite" }), (q) => invite({ title: q.title, expire_date: q.expire_date, usage_limit: q.usage_limit, request_needed: q.request_needed }), [
  o("title", "t", put({ title: "t" })),
  o("expireAt", 99, put({ expire_date: 99 })),
  o("isApprovalRequired", true, put({ request_needed: true })),
  o("isApprovalRequired", false),
  o("limit", 5, (x) => x.p.isApprovalRequired ? bad(x) : put({ usage_limit: 5 })(x)),
], { result: (v) => check(v.inviteLink === "https://t.me/+x", () => JSON.stringify(v), "what the call gives"), chats: [GROUP, CHANNEL] });
method("getCreatedInviteLinks", (x) => [x.chat.id, x.p], U(peer({ _: "messages.getExportedChatInvites", admin_id: { _: "inputUserEmpty" }, limit: 100 })), () => ({ _: "messages.exportedChatInvites", count: 1, invites: [invite()], users: [] }), [
  ...limits,
  o("by", 12, put({ admin_id: inputUser(BOB) })),
  o("isRevoked", true, put({ revoked: true })),
  o("afterDate", 7),
  o("afterInviteLink", "l"),
], {
  chats: [GROUP, CHANNEL],
  finish: (x) => {
    const { afterDate: d, afterInviteLink: l } = x.p;
    if ((d === undefined) !== (l === undefined)) x.invalid = true;
    else if (d) x.req.offset_date = 7, x.req.offset_link = "l";
  },
});
method("deleteRevokedInviteLinks", (x) => [x.chat.id, 12], U(peer({ _: "messages.deleteRevokedExportedChatInvites", admin_id: inputUser(BOB) })), yes);
const HASHES: [string, string][] = [["https://t.me/+Abc", "Abc"], ["https://t.me/joinchat/Abc", "Abc"], ["http://t.me/+Abc", "Abc"], ["Abc", "Abc"], ["tg://join?invite=Abc", ""]];
for (const [link, hash] of HASHES.slice(0, 4)) {
  method(`joinChatByInviteLink ${link}`, () => [link], U(() => ({ _: "messages.importChatInvite", hash })), () => ({ _: "messages.chatInviteJoinResultOk", updates: nothing() }), [], nowhere);
  method(`resolveInviteLink ${link}`, () => [link], U(() => ({ _: "messages.checkChatInvite", hash })), () => ({ _: "chatInvite", title: "t", photo: { _: "photoEmpty", id: 0n }, participants_count: 3, color: 1 }), [], nowhere);
}
const self = { _: "inputUserSelf" };
method("joinChat", chatOnly, U(K(null, { _: "messages.addChatUser", chat_id: 9n, user_id: self, fwd_limit: 0 }, { _: "channels.joinChannel", channel: inputChannel(CHANNEL) })), (q) => q._ === "channels.joinChannel" ? { _: "messages.chatInviteJoinResultOk", updates: nothing() } : invited());
method("leaveChat", chatOnly, K(null, { _: "messages.deleteChatUser", chat_id: 9n, user_id: self }, { _: "channels.leaveChannel", channel: inputChannel(CHANNEL) }), done);
const BANNED = { _: "chatBannedRights", until_date: 0, ...Object.fromEntries(["view_messages", "send_stickers", "send_gifs", "send_games", "send_inline", "embed_links", "send_polls", "change_info", "invite_users", "pin_messages", "manage_topics", "send_photos", "send_videos", "send_roundvideos", "send_audios", "send_voices", "send_docs", "send_plain", "edit_rank", "send_reactions"].map((k) => [k, true])) };
const ban = (banned_rights: any) => ({ _: "channels.editBanned", channel: inputChannel(CHANNEL), participant: BOB.input, banned_rights });
method("banChatMember", withBob, K(null, { _: "messages.deleteChatUser", chat_id: 9n, user_id: inputUser(BOB) }, ban(BANNED)), done, [
  o("until", 99, (x) => x.chat === CHANNEL && (x.req.banned_rights = { ...BANNED, until_date: 99 })),
  o("deleteMessages", true, (x) => {
    if (x.chat === GROUP) x.req.revoke_history = true;
    // bots cannot do it, and it is not what the call fails with
    else if (!x.bot) x.before = [{ _: "channels.deleteParticipantHistory", channel: inputChannel(CHANNEL), participant: BOB.input }];
  }),
  o("deleteMessages", false),
], { other: (q) => q._ === "channels.deleteParticipantHistory" ? history() : undefined });
method("banChatMember of a channel", (x) => [x.chat.id, CHANNEL.id], K(null, null, { ...ban(BANNED), participant: CHANNEL.input }), done);
method("unbanChatMember", withBob, C(() => ban({ _: "chatBannedRights", until_date: 0 })), done);
method("kickChatMember", withBob, C((x) => (x.before = [ban(BANNED)], ban({ _: "chatBannedRights", until_date: 0 }))), done, [], { chats: [CHANNEL] });
const RIGHTS: [string, string][] = [["canSendMessages", "send_plain"], ["canSendAudio", "send_audios"], ["canSendDocuments", "send_docs"], ["canSendPhotos", "send_photos"], ["canSendVideos", "send_videos"], ["canSendVideoNotes", "send_roundvideos"], ["canSendVoice", "send_voices"], ["canSendPolls", "send_polls"], ["canSendStickers", "send_stickers"], ["canSendAnimations", "send_gifs"], ["canSendGames", "send_games"], ["canSendInlineBotResults", "send_inline"], ["canAddWebPagePreviews", "embed_links"], ["canMakeReactions", "send_reactions"], ["canEditMemberTag", "edit_rank"], ["canChangeInfo", "change_info"], ["canInviteUsers", "invite_users"], ["canPinMessages", "pin_messages"], ["canManageTopics", "manage_topics"], ["canManageLinkedChats", "manage_linked_peers"]];
method("setChatMemberRights", withBob, C(() => ban({ _: "chatBannedRights", until_date: 0 })), done, [
  o("until", 99, (x) => void (x.req.banned_rights.until_date = 99)),
  ...RIGHTS.flatMap(([k, f]) => [o("rights", { [k]: false }, (x) => void (x.req.banned_rights[f] = true)), o("rights", { [k]: true })]),
  o("rights", Object.fromEntries(RIGHTS.map(([k], i) => [k, i % 2 === 0])), (x) => RIGHTS.forEach(([, f], i) => i % 2 && (x.req.banned_rights[f] = true))),
]);
const ADMIN: [string, string][] = [["isAnonymous", "anonymous"], ["canManageChat", "other"], ["canDeleteMessages", "delete_messages"], ["canManageVideoChats", "manage_call"], ["canRestrictMembers", "ban_users"], ["canPromoteMembers", "add_admins"], ["canChangeInfo", "change_info"], ["canInviteUsers", "invite_users"], ["canPostMessages", "post_messages"], ["canEditMessages", "edit_messages"], ["canPinMessages", "pin_messages"], ["canManageTopics", "manage_topics"], ["canPostStories", "post_stories"], ["canEditStories", "edit_stories"], ["canDeleteStories", "delete_stories"], ["canManageDirectMessages", "manage_direct_messages"], ["canManageTags", "manage_ranks"], ["canManageLinkedChats", "manage_linked_peers"]];
method("promoteChatMember", withBob, inChannel({ _: "channels.editAdmin", user_id: inputUser(BOB), rank: "" }), done, [...flags(ADMIN, (x) => x.req.admin_rights ??= { _: "chatAdminRights" }), o("title", "boss", put({ rank: "boss" }))], { finish: (x) => void (x.req.admin_rights ??= { _: "chatAdminRights" }) });
for (const password of [PASSWORD, "wrong"]) {
  method(`transferChatOwnership with ${password === PASSWORD ? "the" : "a wrong"} password`, (x) => [x.chat.id, x.a.user ?? 12, password], U((x) => (x.req = { _: "messages.editChatCreator", peer: x.chat.input, user_id: inputUser(BOB) }, proof(x, password === PASSWORD ? "right" : "wrong"), x.req)), done, [arg("user", Number(SELF), bad), arg("user", "me", bad)]);
}
method("setChatMemberTag", withBob, peer({ _: "messages.editChatParticipantRank", participant: BOB.input, rank: "" }), done, [o("tag", "t", put({ rank: "t" }))]);
method("setAvailableReactions", (x) => [x.chat.id, x.a.reactions ?? { type: "none" }], U(peer({ _: "messages.setChatAvailableReactions", available_reactions: { _: "chatReactionsNone" }, paid_enabled: false })), done, [
  arg("reactions", { type: "all" }, put({ available_reactions: { _: "chatReactionsAll" }, paid_enabled: true })),
  arg("reactions", { type: "all", maxReactionCount: 3 }, put({ available_reactions: { _: "chatReactionsAll" }, paid_enabled: true, reactions_limit: 3 })),
  arg("reactions", { type: "some", reactions: REACTIONS.slice(0, 2).map((v) => v[0]), maxReactionCount: 3 }, put({ available_reactions: { _: "chatReactionsSome", reactions: REACTIONS.slice(0, 2).map((v) => v[1]) }, reactions_limit: 3 })),
]);
method("setBoostsRequiredToCircumventRestrictions", (x) => [x.chat.id, 4], U(inChannel({ _: "channels.setBoostsToUnblockRestrictions", boosts: 4 })), done);
method("setChatStickerSet", (x) => [x.chat.id, "name"], inChannel({ _: "channels.setStickers", stickerset: { _: "inputStickerSetShortName", short_name: "name" } }), yes);
method("deleteChatStickerSet", chatOnly, inChannel({ _: "channels.setStickers", stickerset: { _: "inputStickerSetEmpty" } }), yes);
method("disableSlowMode", chatOnly, U(inChannel({ _: "channels.toggleSlowMode", seconds: 0 })), done);
method("setSlowMode", (x) => [x.chat.id, x.a.d ?? "10s"], U(inChannel({ _: "channels.toggleSlowMode", seconds: 10 })), done, ([["30s", 30], ["1m", 60], ["5m", 300], ["15m", 900], ["1h", 3600]] as const).map(([d, seconds]) => arg("d", d, put({ seconds }))).concat(arg("d", "0s", bad)));
method("setChatTitle", (x) => [x.chat.id, "t"], K(null, { _: "messages.editChatTitle", chat_id: 9n, title: "t" }, { _: "channels.editTitle", channel: inputChannel(CHANNEL), title: "t" }), done);
method("setChatDescription", (x) => [x.chat.id, "d"], K(null, { _: "messages.editChatAbout", peer: GROUP.input, about: "d" }, { _: "messages.editChatAbout", peer: CHANNEL.input, about: "d" }), yes);
const nophoto = { _: "inputChatPhotoEmpty" }, BYTES = new Uint8Array([65, 66, 67, 68]);
const newphoto = { _: "inputChatUploadedPhoto", file: { _: "inputFile", id: "file 65,66,67,68", parts: 1, name: "p.jpg", md5_checksum: "" } };
const inGroups = { chats: [GROUP, CHANNEL] };
method("deleteChatPhoto", chatOnly, K(null, { _: "messages.editChatPhoto", chat_id: 9n, photo: nophoto }, { _: "channels.editPhoto", channel: inputChannel(CHANNEL), photo: nophoto }), done, [], inGroups);
method("setChatPhoto", (x) => [x.chat.id, BYTES, { fileName: "p.jpg" }], K(null, { _: "messages.editChatPhoto", chat_id: 9n, photo: newphoto }, { _: "channels.editPhoto", channel: inputChannel(CHANNEL), photo: newphoto }), done, [], inGroups);
method("disableTopics", chatOnly, U(inChannel({ _: "channels.toggleForum", enabled: false, tabs: false })), done);
for (const tabs of both) method(`enableTopics ${tabs}`, (x) => [x.chat.id, tabs], U(inChannel({ _: "channels.toggleForum", enabled: true, tabs })), done);
method("enableSignatures", (x) => [x.chat.id, x.p], U(inChannel({ _: "channels.toggleSignatures", signatures_enabled: true })), done, flags([["showAuthorProfile", "profiles_enabled"]]));
method("disableSignatures", chatOnly, U(inChannel({ _: "channels.toggleSignatures" })), done);
method("deleteChat", chatOnly, U(K(null, { _: "messages.deleteChat", chat_id: 9n }, { _: "channels.deleteChannel", channel: inputChannel(CHANNEL) })), (q) => q._ === "messages.deleteChat" ? true : nothing());
method("setDiscussionChat", (x) => [x.chat.id, CHANNEL.id], U(C(() => ({ _: "channels.setDiscussionGroup", broadcast: inputChannel(CHANNEL), group: inputChannel(CHANNEL) }))), yes);
method("addChatMember", withBob, U(K(null, { _: "messages.addChatUser", chat_id: 9n, user_id: inputUser(BOB), fwd_limit: 0 }, { _: "channels.inviteToChannel", channel: inputChannel(CHANNEL), users: [inputUser(BOB)] })), invited, [o("historyLimit", 5, (x) => x.chat === GROUP && (x.req.fwd_limit = 5))], { result: failed });
method("addChatMembers", (x) => [x.chat.id, [12, 11]], U(K(null, null, { _: "channels.inviteToChannel", channel: inputChannel(CHANNEL), users: [inputUser(BOB), inputUser(ALICE)] })), invited, [], { result: failed });
method("getOnlineCount", chatOnly, U(peer({ _: "messages.getOnlines" })), () => ({ _: "chatOnlines", onlines: 6 }), [], { result: is(6) });
method("setDefaultSendAs", (x) => [x.chat.id, CHANNEL.id], U(peer({ _: "messages.saveDefaultSendAs", send_as: CHANNEL.input })), yes);
const REASONS: [string, string][] = [["spam", "Spam"], ["violence", "Violence"], ["pornography", "Pornography"], ["childAbuse", "ChildAbuse"], ["other", "Other"], ["copyright", "Copyright"], ["locationIrrelevant", "GeoIrrelevant"], ["fake", "Fake"], ["illegalDrugs", "IllegalDrugs"], ["personalDetails", "PersonalDetails"]];
method("reportChat", (x) => [x.chat.id, { type: x.a.reason ?? "spam" }, x.p], U(peer({ _: "account.reportPeer", reason: { _: "inputReportReasonSpam" }, message: "" })), yes, [...REASONS.map(([k, r]) => arg("reason", k, put({ reason: { _: "inputReportReason" + r } }))), o("text", "why", put({ message: "why" }))]);
method("markAllMentionsAsRead", (x) => [x.chat.id, x.p], U(peer({ _: "messages.readMentions" })), history, [o("topicId", 7, put({ top_msg_id: 7 }))]);
method("boostChat", (x) => [x.chat.id, x.p], U(peer({ _: "premium.applyBoost" })), () => ({ _: "premium.myBoosts", my_boosts: [], chats: [], users: [] }), [o("slots", [1, 2], put({ slots: [1, 2] }))], { chats: [CHANNEL] });
const LOG: [string, string[]][] = [["isRestrict", ["ban", "kick", "unban", "unkick", "promote", "demote"]], ["isDelete", ["delete"]], ["isMemberTag", ["edit_rank"]], ["isEdit", ["edit"]], ["isForum", ["forums"]], ["isVideoChat", ["group_call"]], ["isChatSettings", ["info", "settings"]], ["isInvite", ["invite", "invites"]], ["isJoin", ["join"]], ["isLeave", ["leave"]], ["isPin", ["pinned"]], ["isNewMessage", ["send"]]];
method("getRecentActions", (x) => [x.chat.id, x.p], U(inChannel({ _: "channels.getAdminLog", limit: 100, max_id: 0n, min_id: 0n, q: "" })), () => ({ _: "channels.adminLogResults", events: [], chats: [], users: [] }), [
  ...limits,
  ...LOG.map(([k, f]) => o(k, true, (x) => f.forEach((v) => (x.req.events_filter ??= { _: "channelAdminLogEventsFilter" })[v] = true))),
  o("offsetId", "5000000000000000001", put({ max_id: 5000000000000000001n })),
  o("admins", [12, 11], put({ admins: [inputUser(BOB), inputUser(ALICE)] })),
], { finish: (x) => void (x.req.events_filter ??= { _: "channelAdminLogEventsFilter" }) });
const SOUNDS: [any, any][] = [[{ type: "default" }, { _: "notificationSoundDefault" }], [{ type: "none" }, { _: "notificationSoundNone" }], [{ type: "local", title: "t", data: "d" }, { _: "notificationSoundLocal", title: "t", data: "d" }], [{ type: "ringtone", id: "77" }, { _: "notificationSoundRingtone", id: 77n }]];
method("setNotificationSettings", (x) => [x.chat.id, { settings: x.p }], U((x) => ({ _: "account.updateNotifySettings", peer: { _: "inputNotifyPeer", peer: x.chat.input }, settings: { _: "inputPeerNotifySettings" } })), yes, [
  o("muteUntil", 99, (x) => void (x.req.settings.mute_until = 99)),
  o("muteUntil", 0, (x) => void (x.req.settings.mute_until = 0)),
  ...([["showsPreviews", "show_previews"], ["isSilent", "silent"], ["hidesStories", "stories_hide_sender"], ["mutesStories", "stories_muted"]]).flatMap(([k, f]) => both.map((b) => o(k, b, (x) => void (x.req.settings[f] = b)))),
  ...SOUNDS.flatMap(([s, t]) => [o("sound", s, (x) => void (x.req.settings.sound = t)), o("storySound", s, (x) => void (x.req.settings.stories_sound = t))]),
]);
method("blockUser", (x) => [x.chat.id], U((x) => ({ _: "contacts.block", id: x.chat.input })), yes, [], { chats: [ALICE] });
method("unblockUser", (x) => [x.chat.id], U((x) => ({ _: "contacts.unblock", id: x.chat.input })), yes, [], { chats: [ALICE] });

// ---- the account
for (const on of both) {
  const more = { chats: [ALICE] };
  method(on ? "enableSponsoredMessages" : "disableSponsoredMessages", () => [], U(() => ({ _: "account.toggleSponsoredMessages", enabled: on })), yes, [], more);
  method(on ? "pauseBusinessBotConnection" : "resumeBusinessBotConnection", chatOnly, U(peer({ _: "account.toggleConnectedBotPaused", paused: on })), yes);
  method(`setIsOnline ${on}`, () => [on], U(() => ({ _: "account.updateStatus", offline: !on })), yes, [], more);
  method(on ? "allowBotToSetCustomEmojiStatus" : "disallowBotToSetCustomEmojiStatus", chatOnly, U((x) => ({ _: "bots.toggleUserEmojiStatusPermission", bot: inputUser(x.chat), enabled: on })), yes, [], more);
  method(on ? "addBotToAttachmentsMenu" : "removeBotFromAttachmentsMenu", (x) => [x.chat.id, x.p], U((x) => ({ _: "messages.toggleBotInAttachMenu", bot: inputUser(x.chat), enabled: on })), yes, on ? flags([["isWriteAllowed", "write_allowed"]]) : [], more);
  method(on ? "showUsername" : "hideUsername", (x) => [x.chat.id, "name"], U(K({ _: "bots.toggleUsername", bot: inputUser(ALICE), username: "name", active: on }, null, { _: "channels.toggleUsername", channel: inputChannel(CHANNEL), username: "name", active: on })), yes, [], { chats: [ALICE, CHANNEL] });
  method((on ? "showUsername" : "hideUsername") + " of one's own", () => ["me", "name"], U(() => ({ _: "account.toggleUsername", username: "name", active: on })), yes, [], more);
  method(on ? "allowUnpaidMessagesFromUser" : "disallowUnpaidMessagesFromUser", (x) => [12, x.p], U(() => ({ _: "account.toggleNoPaidMessagesException", user_id: inputUser(BOB), ...(on ? {} : { require_payment: true }) })), yes, [...(on ? flags([["isRefunded", "refund_charged"]]) : []), o("parentChatId", CHANNEL.id, put({ parent_peer: CHANNEL.input }))], more);
}
method("checkUsername", (x) => ["name", x.p], U(() => ({ _: "account.checkUsername", username: "name" })), (q) => q._ === "account.checkUsername", [o("chatId", CHANNEL.id, (x) => void (x.req = { _: "channels.checkUsername", channel: inputChannel(CHANNEL), username: "name" }))], { ...nowhere, result: (v, x) => is(x.req._ === "account.checkUsername")(v) });
method("setUsername", () => ["name"], U(() => ({ _: "account.updateUsername", username: "name" })), () => ({ _: "userEmpty", id: 1n }), [], nowhere);
method("removeUsername", () => [], U(() => ({ _: "account.updateUsername", username: "" })), () => ({ _: "userEmpty", id: 1n }), [], nowhere);
method("reorderUsernames", (x) => [x.chat.id, ["b", "a"]], U(K({ _: "bots.reorderUsernames", bot: inputUser(ALICE), order: ["b", "a"] }, null, { _: "channels.reorderUsernames", channel: inputChannel(CHANNEL), order: ["b", "a"] })), yes, [], { chats: [ALICE, CHANNEL], result: is(true) });
method("reorderUsernames of one's own", () => ["me", ["b", "a"]], U(() => ({ _: "account.reorderUsernames", order: ["b", "a"] })), yes, [], nowhere);
method("hideUsernames", chatOnly, U(inChannel({ _: "channels.deactivateAllUsernames" })), yes, [], { chats: [CHANNEL] });
const STATUS: [any, any][] = [[{ type: "customEmoji", customEmojiId: "77" }, { _: "emojiStatus", document_id: 77n }], [{ type: "gift", giftId: "78" }, { _: "inputEmojiStatusCollectible", collectible_id: 78n }]];
const status: Opt[] = [arg("status", STATUS[1][0], (x) => void (x.req.emoji_status = { ...STATUS[1][1], ...(x.p.until ? { until: 99 } : {}) })), o("until", 99, (x) => void (x.req.emoji_status = { ...x.req.emoji_status, until: 99 }))];
method("setEmojiStatus", (x) => [x.a.status ?? STATUS[0][0], x.p], U(() => ({ _: "account.updateEmojiStatus", emoji_status: STATUS[0][1] })), yes, status, nowhere);
method("removeEmojiStatus", () => [], U(() => ({ _: "account.updateEmojiStatus", emoji_status: { _: "emojiStatusEmpty" } })), yes, [], nowhere);
method("setChannelEmojiStatus", (x) => [x.chat.id, x.a.status ?? STATUS[0][0], x.p], U(inChannel({ _: "channels.updateEmojiStatus", emoji_status: STATUS[0][1] })), done, status);
method("removeChannelEmojiStatus", chatOnly, U(inChannel({ _: "channels.updateEmojiStatus", emoji_status: { _: "emojiStatusEmpty" } })), done);
method("setUserEmojiStatus", (x) => [12, x.a.status ?? STATUS[0][0], x.p], B(() => ({ _: "bots.updateUserEmojiStatus", user_id: inputUser(BOB), emoji_status: STATUS[0][1] })), yes, status, nowhere);
method("removeUserEmojiStatus", () => [12], B(() => ({ _: "bots.updateUserEmojiStatus", user_id: inputUser(BOB), emoji_status: { _: "emojiStatusEmpty" } })), yes, [], nowhere);
method("updateProfile", (x) => [{ ...x.p }], U(() => ({ _: "account.updateProfile" })), () => ({ _: "userEmpty", id: 1n }), [
  ...([["firstName", "first_name"], ["lastName", "last_name"], ["bio", "about"]]).flatMap(([k, f]) => [o(k, " v ", put({ [f]: "v" })), ...(k === "firstName" ? [] : [o(k, "", put({ [f]: "" }))])]),
], { ...nowhere, finish: (x) => void (Object.keys(x.p).length || (x.invalid = true)) });
method("setBirthday", (x) => [x.p], U(() => ({ _: "account.updateBirthday" })), yes, [o("birthday", { day: 1, month: 2 }, put({ birthday: { _: "birthday", day: 1, month: 2 } })), o("birthday", { day: 1, month: 2, year: 1990 }, put({ birthday: { _: "birthday", day: 1, month: 2, year: 1990 } }))], nowhere);
method("suggestBirthday", () => [12, { day: 1, month: 2, year: 1990 }], U(() => ({ _: "users.suggestBirthday", id: inputUser(BOB), birthday: { _: "birthday", day: 1, month: 2, year: 1990 } })), done, [], nowhere);
method("setPersonalChannel", (x) => [x.p], U(() => ({ _: "account.updatePersonalChannel", channel: { _: "inputChannelEmpty" } })), yes, [o("chatId", CHANNEL.id, put({ channel: inputChannel(CHANNEL) })), o("chatId", 12, bad)], nowhere);
method("setNameColor", (x) => [4, x.p], U(() => ({ _: "account.updateColor", color: { _: "peerColor", color: 4 } })), yes, [o("customEmojiId", "77", (x) => void (x.req.color.background_emoji_id = 77n))], nowhere);
method("setProfileColor", (x) => [4, x.p], U(() => ({ _: "account.updateColor", for_profile: true, color: { _: "peerColor", color: 4 } })), yes, [o("customEmojiId", "77", (x) => void (x.req.color.background_emoji_id = 77n))], nowhere);
method("setLocation", (x) => [x.p], U(() => ({ _: "account.updateBusinessLocation" })), yes, [
  o("address", " here ", put({ address: "here" })),
  o("address", "x".repeat(96), put({ address: "x".repeat(96) })),
  o("address", "x".repeat(97), bad),
  o("address", "  ", bad),
  o("latitude", 1.5, (x) => void (x.p.longitude !== undefined && (x.req.geo_point = { _: "inputGeoPoint", lat: 1.5, long: 0 }))),
  o("longitude", 0),
], { ...nowhere, finish: (x) => void (x.p.latitude !== undefined && x.p.longitude !== undefined && (x.req.geo_point = { _: "inputGeoPoint", lat: 1.5, long: 0 })) });
const RECIPIENTS: Opt[] = [
  ...([["existingChats", "existing_chats"], ["newChats", "new_chats"], ["contacts", "contacts"], ["nonContacts", "non_contacts"], ["excludeSelected", "exclude_selected"]]).map(([k, f]) => arg(k, true, (x) => void (x.req.message.recipients[f] = true))),
  arg("userIds", [12, 11], (x) => void (x.req.message.recipients.users = [inputUser(BOB), inputUser(ALICE)])),
];
const recipients = (x: Exp) => Object.fromEntries(Object.entries(x.a).filter(([k]) => RECIPIENTS.some((r) => r.key === k)));
method("setBusinessAwayMessage", (x) => [3, x.a.schedule ?? { type: "always" }, recipients(x), x.p], U(() => ({ _: "account.updateBusinessAwayMessage", message: { _: "inputBusinessAwayMessage", shortcut_id: 3, schedule: { _: "businessAwayMessageScheduleAlways" }, recipients: { _: "inputBusinessRecipients" } } })), yes, [
  ...RECIPIENTS,
  arg("schedule", { type: "outsideWorkingHours" }, (x) => void (x.req.message.schedule = { _: "businessAwayMessageScheduleOutsideWorkHours" })),
  arg("schedule", { type: "custom", startsAt: 4, endsAt: 5 }, (x) => void (x.req.message.schedule = { _: "businessAwayMessageScheduleCustom", start_date: 4, end_date: 5 })),
  o("isOfflineOnly", true, (x) => void (x.req.message.offline_only = true)),
], nowhere);
method("removeBusinessAwayMessage", () => [], U(() => ({ _: "account.updateBusinessAwayMessage" })), yes, [], nowhere);
method("setBusinessGreetingMessage", (x) => [3, recipients(x), 14], U(() => ({ _: "account.updateBusinessGreetingMessage", message: { _: "inputBusinessGreetingMessage", shortcut_id: 3, recipients: { _: "inputBusinessRecipients" }, no_activity_days: 14 } })), yes, RECIPIENTS, nowhere);
method("removeBusinessGreetingMessage", () => [], U(() => ({ _: "account.updateBusinessGreetingMessage" })), yes, [], nowhere);
method("setBusinessIntro", (x) => ["t", "d", x.p], U(() => ({ _: "account.updateBusinessIntro", intro: { _: "inputBusinessIntro", title: "t", description: "d" } })), yes, [o("sticker", sticker, (x) => void (x.req.intro.sticker = known)), o("sticker", animation, bad)], nowhere);
method("removeBusinessIntro", () => [], U(() => ({ _: "account.updateBusinessIntro" })), yes, [], nowhere);
method("setCloseFriends", () => [[12, 11]], U(() => ({ _: "contacts.editCloseFriends", id: [12n, 11n] })), yes, [], nowhere);
for (const video of both) {
  const file = { _: "inputFile", id: "file 65,66,67,68", parts: 1, name: video ? "video.mp4" : "p.jpg", md5_checksum: "" };
  method(video ? "updateProfileVideo" : "updateProfilePhoto", (x) => [BYTES, video ? x.p : { fileName: "p.jpg", ...x.p }], () => ({ _: "photos.uploadProfilePhoto", [video ? "video" : "file"]: file }), () => ({ _: "photos.photo", photo: { _: "photoEmpty", id: 1n }, users: [] }), [
    ...both.map((b) => o("isPublic", b, b ? put({ fallback: true }) : undefined, { only: "user" as const })),
    o("botId", 12, put({ bot: inputUser(BOB) }), { only: "user" }),
    ...(video ? [o("thumbnailTimestamp", 1.5, put({ video_start_ts: 1.5 }))] : []),
  ], nowhere);
}
method("removeProfilePhoto", (x) => [x.p], () => ({ _: "photos.updateProfilePhoto", id: { _: "inputPhotoEmpty" } }), () => ({ _: "photos.photo", photo: { _: "photoEmpty", id: 1n }, users: [] }), [o("botId", 12, put({ bot: inputUser(BOB) }), { only: "user" })], nowhere);
method("removeAuthorizationSession", () => ["5000000000000000001"], U(() => ({ _: "account.resetAuthorization", hash: 5000000000000000001n })), yes, [], nowhere);
method("removeAuthorizationSessions", () => [], U(() => ({ _: "auth.resetAuthorizations" })), yes, [], nowhere);
method("getAccountTtl", () => [], U(() => ({ _: "account.getAccountTTL" })), () => ({ _: "accountDaysTTL", days: 180 }), [], { ...nowhere, result: is(180) });
method("setAccountTtl", () => [180], U(() => ({ _: "account.setAccountTTL", ttl: { _: "accountDaysTTL", days: 180 } })), yes, [], nowhere);
method("disconnectConnectedWebsite", () => ["-5000000000000000001"], U(() => ({ _: "account.resetWebAuthorization", hash: -5000000000000000001n })), yes, [], nowhere);
method("disconnectConnectedWebsites", () => [], U(() => ({ _: "account.resetWebAuthorizations" })), yes, [], nowhere);
method("clearRecentEmojiStatuses", () => [], U(() => ({ _: "account.clearRecentEmojiStatuses" })), yes, [], nowhere);
method("resetNotificationSettings", () => [], U(() => ({ _: "account.resetNotifySettings" })), yes, [], nowhere);
method("setDefaultMessageTtl", () => [86400], U(() => ({ _: "messages.setDefaultHistoryTTL", period: 86400 })), yes, [], nowhere);
const KEYS: [string, string][] = [["phoneNumber", "PhoneNumber"], ["bio", "About"], ["birthday", "Birthday"], ["profilePhoto", "ProfilePhoto"], ["forwards", "Forwards"], ["invitation", "ChatInvite"], ["findByPhoneNumber", "AddedByPhone"], ["voiceMessage", "VoiceMessages"], ["paidMessageException", "NoPaidMessages"], ["peerToPeerCall", "PhoneP2P"], ["gifts", "StarGiftsAutoSave"], ["savedMusic", "SavedMusic"], ["phoneCall", "PhoneCall"], ["lastSeen", "StatusTimestamp"]];
const RULES: [any, string, any, any?][] = [
  ...both.flatMap((a): [any, string, any, any?][] => {
    const p = a ? "Allow" : "Disallow";
    return [
      [{ type: "contacts", isAllowed: a }, p + "Contacts", {}],
      [{ type: "everybody", isAllowed: a }, p + "All", {}],
      [{ type: "users", usersId: [12, 11], isAllowed: a }, p + "Users", { users: [inputUser(BOB), inputUser(ALICE)] }, { users: [12n, 11n] }],
      [{ type: "bots", isAllowed: a }, p + "Bots", {}],
      [{ type: "chatMembers", chatIds: [GROUP.id, CHANNEL.id], isAllowed: a }, p + "ChatParticipants", { chats: [9n, 50n] }],
    ];
  }),
  [{ type: "closeFriends" }, "AllowCloseFriends", {}],
  [{ type: "premium" }, "AllowPremium", {}],
];
const rule = (i: number) => ({ _: "inputPrivacyValue" + RULES[i][1], ...RULES[i][2] });
method("setPrivacySetting", (x) => [x.a.key ?? "bio", x.a.rules ?? [RULES[0][0]]], U(() => ({ _: "account.setPrivacy", key: { _: "inputPrivacyKeyAbout" }, rules: [rule(0)] })), (q) => ({ _: "account.privacyRules", rules: q.rules.filter((r: any) => !r.users && !r.chats).map((r: any) => ({ ...r, _: r._.replace("input", "").replace(/^./, (c: string) => c.toLowerCase()) })), chats: [], users: [] }), [
  ...KEYS.map(([k, t]) => arg("key", k, put({ key: { _: "inputPrivacyKey" + t } }))),
  ...RULES.flatMap((r, i) => [arg("rules", [r[0]], put({ rules: [rule(i)] })), arg("rules", [r[0], RULES[1][0]], put({ rules: [rule(i), rule(1)] }))]),
], { ...nowhere, result: (v, x) => check(v.length === x.req.rules.filter((r: any) => !r.users && !r.chats).length, () => JSON.stringify(v), "what the call gives") });
// settings that are kept together: what is not set stays
const FIELDS = ["archive_and_mute_new_noncontact_peers", "keep_archived_unmuted", "keep_archived_folders", "hide_read_marks", "new_noncontact_peers_require_premium", "display_gifts_button"];
const OLD: [string, any][] = [
  ["nothing", {}],
  ["everything", { ...Object.fromEntries(FIELDS.map((f) => [f, true])), noncontact_peers_paid_stars: 7n, disallowed_gifts: { _: "disallowedGiftsSettings", disallow_unlimited_stargifts: true, disallow_premium_gifts: true } }],
  ["some", { keep_archived_unmuted: true, hide_read_marks: true, noncontact_peers_paid_stars: 7n }],
];
for (const [named, old] of OLD) {
  const settings = { _: "globalPrivacySettings", ...old };
  const saved = (name: string, value: any, change: any) => {
    method(`${name} ${JSON.stringify(value)} after ${named}`, () => [value], U((x) => (x.before = [{ _: "account.getGlobalPrivacySettings" }], { _: "account.setGlobalPrivacySettings", settings: { ...settings, ...change } })), (q) => q.settings, [], { ...nowhere, other: (q) => q._ === "account.getGlobalPrivacySettings" ? settings : undefined });
  };
  const read = (name: string, want: any) => method(`${name} of ${named}`, () => [], U(() => ({ _: "account.getGlobalPrivacySettings" })), () => settings, [], { ...nowhere, result: is(want) });
  for (const v of both) {
    saved("setReadDatePrivacy", v, { hide_read_marks: v ? undefined : true });
    saved("setArchiveAndMuteNewChatsFromUnknownUsers", v, { archive_and_mute_new_noncontact_peers: v ? true : undefined });
    for (const [messagePrice, stars] of [[0, undefined], [5, 5n], [-1, undefined], [1000001, 1000000n]] as const) {
      saved("setNewChatPrivacy", { isNewChatFromNonPremiumUsersAllowed: v, messagePrice }, { new_noncontact_peers_require_premium: v ? undefined : true, noncontact_peers_paid_stars: stars });
    }
    const GIFTS = [["isRegularGiftAccepted", "disallow_unlimited_stargifts"], ["isLimitedGiftAccepted", "disallow_limited_stargifts"], ["isUpgradedGiftAccepted", "disallow_unique_stargifts"], ["isGiftFromChannelAccepted", "disallow_stargifts_from_channels"], ["isPremiumGiftAccepted", "disallow_premium_gifts"]];
    GIFTS.forEach(([k, f]) => saved("setGiftPrivacy", { isGiftButtonDisplayed: v, [k]: false }, { display_gifts_button: v ? true : undefined, disallowed_gifts: { _: "disallowedGiftsSettings", [f]: true } }));
  }
  read("getReadDatePrivacy", !old.hide_read_marks);
  read("getArchiveAndMuteNewChatsFromUnknownUsers", !!old.archive_and_mute_new_noncontact_peers);
  read("getNewChatPrivacy", { isNewChatFromNonPremiumUsersAllowed: !old.new_noncontact_peers_require_premium, messagePrice: Number(old.noncontact_peers_paid_stars ?? 0n) });
  read("getGiftPrivacy", { isGiftButtonDisplayed: !!old.display_gifts_button, isRegularGiftAccepted: named !== "everything", isLimitedGiftAccepted: true, isUpgradedGiftAccepted: true, isGiftFromChannelAccepted: true, isPremiumGiftAccepted: named !== "everything" });
}

export { specs };

export default {
  id: "X02",
  level: "model_checking",
  rule: "every method for managing messages, chats, topics and the account, called by users and bots in every kind of chat with every combination of at most two of its parameters (three in thorough) out of the listed values, valid and not; the requests a model server receives, their number and order, against a table of what each call means; what the server says given back",
  assumptions: ["Parameters interact in pairs (in triples in thorough) at most."],
  exhaustive: true,
  scenarios: (tier) => {
    const all: Scenario[] = [];
    for (const bot of both) for (const s of specs(bot)) all.push(scenario(s, tier === "thorough" ? 3 : 2));
    return all;
  },
} satisfies CheckDef;
