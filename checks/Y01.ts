// deno-lint-ignore-file no-explicit-any
// Every update the server sends reaches the application as what it is.
//
// The values are made from the schema: an ordinary value of the update and everything that differs
// from it along one path of fields, constructors, and lists, up to a depth.
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { settle } from "../lib/world.ts";
import { App, channel, group, SELF, user } from "../lib/client.ts";
import { type Variant, Variants } from "../lib/variants.ts";
import { Api } from "/repo/2_tl.ts";

const people = {
  users: [user(11n), user(12n), user(14n, { bot: true, username: "abot", bot_info_version: 1 })],
  chats: [group(9n), channel(50n, { username: "fifty" }), channel(51n, { megagroup: undefined, broadcast: true }), { _: "community", id: 5n, access_hash: 6n, title: "com", photo: { _: "chatPhotoEmpty" }, date: 1 }],
};
let n = 0;
const fresh = () => ++n;
const SET = { _: "inputStickerSetID", id: 77n, access_hash: 78n };
const doc = (mime_type: string, attributes: any[]) => ({ ...gen.make("document"), mime_type, attributes });
const a = {
  size: { _: "documentAttributeImageSize", w: 3, h: 4 },
  sticker: { _: "documentAttributeSticker", alt: "x", stickerset: SET },
  loose: { _: "documentAttributeSticker", alt: "x", stickerset: { _: "inputStickerSetEmpty" } },
  mask: { _: "documentAttributeSticker", mask: true, mask_coords: { _: "maskCoords", n: 1, x: 1, y: 1, zoom: 1 }, alt: "x", stickerset: SET },
  emoji: { _: "documentAttributeCustomEmoji", free: true, alt: "x", stickerset: SET },
  video: { _: "documentAttributeVideo", duration: 3, w: 5, h: 6, supports_streaming: true },
  round: { _: "documentAttributeVideo", round_message: true, duration: 3, w: 5, h: 5 },
  audio: { _: "documentAttributeAudio", duration: 3, title: "t", performer: "p" },
  voice: { _: "documentAttributeAudio", voice: true, duration: 3, waveform: new Uint8Array([1, 2]) },
  animated: { _: "documentAttributeAnimated" },
  name: { _: "documentAttributeFilename", file_name: "f.bin" },
};
/** The attributes documents come with. */
const ATTRIBUTES: Record<string, [any[], string]> = {
  none: [[], "document"],
  file: [[a.name], "document"],
  image: [[a.size, a.name], "document"],
  sticker: [[a.size, a.sticker, a.name], "sticker"],
  looseSticker: [[a.size, a.loose], "sticker"],
  mask: [[a.size, a.mask], "sticker"],
  videoSticker: [[a.video, a.sticker, a.name], "sticker"],
  animation: [[a.video, a.name, a.animated], "animation"],
  gif: [[a.size, a.name, a.animated], "animation"],
  bareAnimation: [[a.animated], "animation"],
  video: [[a.video, a.name], "video"],
  namelessVideo: [[a.video], "video"],
  videoWithStickers: [[a.video, { _: "documentAttributeHasStickers" }], "video"],
  round: [[a.round], "videoNote"],
  audio: [[a.audio, a.name], "audio"],
  namelessAudio: [[{ _: "documentAttributeAudio", duration: 1 }], "audio"],
  voice: [[a.voice], "voice"],
  bareVoice: [[{ _: "documentAttributeAudio", voice: true, duration: 1 }], "voice"],
};
const attributesOf = (x: any) => Object.values(ATTRIBUTES).find((v) => JSON.stringify(x.map((y: any) => y._ + !!y.voice + !!y.round_message)) === JSON.stringify(v[0].map((y: any) => y._ + !!y.voice + !!y.round_message)))?.[1] ?? "document";
const listed = (f: () => Record<string, any>) => () => Object.entries(f()).map(([label, v]): Variant => ({ label, v }));
const INLINE = ["keyboardButtonUrl", "keyboardButtonCallback", "keyboardButtonSwitchInline", "keyboardButtonGame", "keyboardButtonBuy", "keyboardButtonUrlAuth", "keyboardButtonUserProfile", "keyboardButtonWebView", "keyboardButtonCopy"];
const BUTTON = { _: "keyboardButtonCallback", text: "b", data: new Uint8Array([1]) };

const gen: Variants = new Variants(Api.schema as any, {
  ordinary: {
    Peer: "peerUser",
    PhotoSize: "photoSize",
    WebPage: "webPage",
    MessageMedia: "messageMediaGeo",
    MessageAction: "messageActionChatEditTitle",
    Message: "message",
    KeyboardButton: "keyboardButton",
    RichText: "textPlain",
    PageBlock: "pageBlockDivider",
    ChannelParticipant: "channelParticipant",
    ChatParticipant: "chatParticipant",
    ExportedChatInvite: "chatInviteExported",
    SendMessageAction: "sendMessageTypingAction",
    InputBotInlineMessageID: "inputBotInlineMessageID64",
    Reaction: "reactionEmoji",
    GroupCall: "groupCall",
    StoryItem: "storyItem",
    EmojiStatus: "emojiStatus",
    Document: "document",
    StarGift: "starGift",
    BotInfo: "botInfo",
    PollAnswer: "pollAnswer",
    LangPackString: "langPackString",
    StarsAmount: "starsAmount",
  },
  present: ["message.from_id", "messageService.from_id", "messageMediaDocument.document", "messageMediaPhoto.photo", "webPagePending.url", "webPageEmpty.url", "updateChannelParticipant.new_participant", "updateChatParticipant.new_participant", "messageActionPollAppendAnswer.answer", "messageMediaPoll.poll"],
  never: (c, path) => {
    if (c === "emojiStatusEmpty") return path.includes("channel");
    if (/^peerC/.test(c) && /updateChannelParticipant.*\.peer$/.test(path)) return true;
    if (c === "peerChat") return /\.(from_id|saved_peer_id|guestchat_via_from|actor)$/.test(path);
    if (c === "no from_id") return /messageService$/.test(path);
    if (c === "no url") return true;
    if (/^keyboardButton/.test(c) && c !== "keyboardButtonRow" && c !== "keyboardButtonStyle") return c === "inputKeyboardButtonRequestPeer" || path.includes("replyInlineMarkup") !== INLINE.includes(c);
    // only sent by clients, or as placeholders
    if (/^input(?!StickerSet|BotInlineMessageID|GroupCall$|Channel$|Peer|Invoice|ReplyTo)/.test(c)) return true;
    if (/^(geoPointEmpty|webPageNotModified|botAppNotModified|reactionEmpty|documentEmpty)$/.test(c)) return !/messageMediaDocument\.document$/.test(path);
    if (c === "photoEmpty") return !/(message\.message\.media\.messageMediaPhoto|messageActionChatEditPhoto)\.photo$/.test(path);
    if (c === "no photo" || c === "no document") return !/message\.message\.media\.[A-Za-z]*$/.test(path);
    if (c === "starGift") return /messageActionStarGiftUnique\.gift/.test(path);
    if (c === "starGiftUnique") return /messageActionStarGift\.gift/.test(path);
    // not in messages with rich text
    if (/^(pageBlock(RelatedArticles|Title|Subtitle|AuthorDate|Header|Subheader|Audio|Video|Photo)|textDiff|textImage)$/.test(c)) return /rich_message/.test(path);
    if (/^(chatEmpty|chat|chatForbidden|community|communityForbidden)$/.test(c)) return /pageBlockChannel/.test(path);
    // what polls come with
    if (/\.(attached_media|solution_media)$|pollAnswer\.media$/.test(path)) return !/^messageMedia(Photo|Document|Geo|Venue|WebPage)$/.test(c);
    if (/^webPage(Empty|Pending)$/.test(c)) return /messageMediaPoll|pollAnswer/.test(path);
    return false;
  },
  shallow: { Page: 1, WebPage: 2, Message: 1, PageBlock: 2, RichText: 1, StarGift: 2, RichMessage: 3, User: 1, Chat: 1, StoryItem: 1 },
  values: {
    "document.attributes": listed(() => Object.fromEntries(Object.entries(ATTRIBUTES).map(([k, v]) => [k, v[0]]))),
    "photo.sizes": listed(() => ({
      one: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 4 }],
      stripped: [{ _: "photoStrippedSize", type: "i", bytes: new Uint8Array([1]) }, { _: "photoSize", type: "m", w: 1, h: 1, size: 4 }],
      progressive: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 4 }, { _: "photoSizeProgressive", type: "y", w: 4, h: 4, sizes: [3, 9] }],
      many: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 4 }, { _: "photoSize", type: "x", w: 2, h: 2, size: 5 }, { _: "photoCachedSize", type: "s", w: 1, h: 1, bytes: new Uint8Array([1]) }],
    })),
    "updateBotCallbackQuery.msg_id": listed(() => ({ there: 3, gone: 5 })),
    "updateMessagePollVote.options": listed(() => ({ none: [], one: [new Uint8Array([49])], two: [new Uint8Array([48]), new Uint8Array([50])] })),
    "photoSize.type": listed(() => ({ m: "m", x: "x" })),
    "channel.usernames": listed(() => ({ one: [{ _: "username", active: true, editable: true, username: "fifty" }], two: [{ _: "username", active: true, username: "other" }, { _: "username", active: true, editable: true, username: "fifty" }] })),
    "starGift.sticker": () => [],
    "starGiftAttributeModel.document": () => [],
    "starGiftAttributePattern.document": () => [],
    "messageExtendedMedia.media": listed(() => ({ photo: gen.make("messageMediaPhoto"), video: { ...gen.make("messageMediaDocument"), document: doc("video/mp4", [a.video]) } })),
    "storyItem.media": listed(() => ({ photo: gen.make("messageMediaPhoto"), video: { ...gen.make("messageMediaDocument"), document: doc("video/mp4", [a.video]) }, unsupported: { _: "messageMediaUnsupported" } })),
    "messageMediaPhoto.video": listed(() => ({ video: doc("video/mp4", [a.video]) })),
    "messageMediaPoll.attached_media": listed(() => MEDIA()),
    "pollAnswer.media": listed(() => MEDIA()),
    "pollResults.solution_media": listed(() => MEDIA()),
  },
  fields: {
    "message.id": fresh,
    "messageService.id": fresh,
    "ephemeralMessage.id": fresh,
    "poll.id": () => BigInt(fresh()),
    "updateMessagePoll.poll_id": () => BigInt(fresh()),
    "message.peer_id": () => ({ _: "peerUser", user_id: 11n }),
    "messageService.peer_id": () => ({ _: "peerUser", user_id: 11n }),
    "updateBotCallbackQuery.peer": () => ({ _: "peerUser", user_id: 11n }),
    "message.from_id": () => ({ _: "peerUser", user_id: 12n }),
    "replyInlineMarkup.rows": () => [{ _: "keyboardButtonRow", buttons: [BUTTON] }],
    "replyKeyboardMarkup.rows": () => [{ _: "keyboardButtonRow", buttons: [{ _: "keyboardButton", text: "b" }] }],
    "keyboardButtonRow.buttons": () => [BUTTON],
    "document.attributes": () => [a.name],
    "document.mime_type": () => "video/mp4",
    "messageReplyHeader.reply_to_msg_id": () => 1,
    "messageMediaWebPage.webpage": () => ({ _: "webPage", id: 7n, url: "https://e.org/x", display_url: "e.org/x", hash: 0 }),
    "photo.sizes": () => [{ _: "photoSize", type: "m", w: 1, h: 1, size: 4 }, { _: "photoSize", type: "x", w: 2, h: 2, size: 5 }],
    "starGift.sticker": () => doc("image/webp", [a.size, a.loose]),
    "starGiftAttributeModel.document": () => doc("image/webp", [a.size, a.loose]),
    "starGiftAttributePattern.document": () => doc("image/webp", [a.size, a.loose]),
    "messageActionStarGiftUnique.gift": () => gen.make("starGiftUnique"),
    "messageMediaPhoto.video": () => doc("video/mp4", [a.video]),
    "messageMediaPhoto.live_photo": () => true,
    "messageExtendedMedia.media": () => gen.make("messageMediaPhoto"),
    "storyItem.media": () => gen.make("messageMediaPhoto"),
    "messageMediaPoll.attached_media": () => gen.make("messageMediaPhoto"),
    "pollAnswer.option": () => new Uint8Array([48]),
    "pollAnswerVoters.option": () => new Uint8Array([48]),
    "updateMessagePollVote.options": () => [new Uint8Array([49])],
    "langPackDifference.lang_code": () => "en",
  },
});
function MEDIA(): Record<string, any> {
  const d = (x: any) => ({ ...gen.make("messageMediaDocument"), document: x });
  return {
    photo: gen.make("messageMediaPhoto"),
    livePhoto: { ...gen.make("messageMediaPhoto"), video: doc("video/mp4", [a.video]) },
    video: d(doc("video/mp4", [a.video])),
    animation: d(doc("video/mp4", [a.video, a.animated])),
    sticker: d(doc("image/webp", [a.size, a.sticker])),
    location: gen.make("messageMediaGeo"),
    venue: gen.make("messageMediaVenue"),
    link: gen.make("messageMediaWebPage"),
  };
}

// ---- what the application is to be told -----------------------------------------------------------

const cid = (p: any): number => p._ === "peerUser" ? Number(p.user_id) : p._ === "peerChat" ? -Number(p.chat_id) : -1000000000000 - Number(p.channel_id);
const who = (p: any) => ({ id: cid(p) });
const usr = (id: bigint) => ({ id: Number(id) });

const ENTITIES: Record<string, string> = { Mention: "mention", Hashtag: "hashtag", BotCommand: "botCommand", Url: "url", Email: "email", Bold: "bold", Italic: "italic", Code: "code", Pre: "pre", TextUrl: "textLink", MentionName: "textMention", Cashtag: "cashtag", Phone: "phoneNumber", Underline: "underline", Strike: "strikethrough", Blockquote: "blockquote", BankCard: "bankCard", Spoiler: "spoiler", CustomEmoji: "customEmoji", FormattedDate: "dateTime" };
function entities(l: any[] | undefined) {
  return (l ?? []).filter((e) => ENTITIES[e._.slice(13)]).map((e) => ({
    type: ENTITIES[e._.slice(13)],
    offset: e.offset,
    length: e.length,
    language: e.language,
    url: e.url,
    userId: e.user_id === undefined ? undefined : Number(e.user_id),
    customEmojiId: e.document_id === undefined ? undefined : String(e.document_id),
    collapsible: e.collapsed,
    dateTime: e.date,
  }));
}
const photo = (p: any) => {
  const sizes = p.sizes.filter((v: any) => v._ === "photoSize" || v._ === "photoSizeProgressive").map((v: any) => ({ width: v.w, height: v.h, fileSize: v.size ?? Math.max(...v.sizes) }));
  return sizes.reduce((x: any, y: any) => y.fileSize > x.fileSize ? y : x);
};
function file(type: string, d: any): any {
  const of = (n: string) => d.attributes.find((v: any) => v._ === "documentAttribute" + n);
  const v = of("Video"), x = of("Audio"), st = of("Sticker"), size = of("ImageSize"), name = of("Filename");
  const base = { fileSize: Number(d.size), mimeType: d.mime_type };
  switch (type) {
    case "document":
      return { ...base, ...name ? { fileName: name.file_name } : {} };
    case "video":
      return { ...base, width: v.w, height: v.h, duration: v.duration, ...name ? { fileName: name.file_name } : {} };
    case "animation":
      return { ...base, fileName: name?.file_name, ...v ? { width: v.w, height: v.h, duration: v.duration } : {} };
    case "videoNote":
      return { fileSize: base.fileSize, length: v.w, duration: v.duration };
    case "voice":
      return { ...base, duration: x.duration };
    case "audio":
      return { ...base, duration: x.duration, title: x.title, performer: x.performer };
    case "sticker":
      return { fileSize: base.fileSize, type: st.mask ? "mask" : "regular", emoji: st.alt, width: (size ?? v).w, height: (size ?? v).h, setName: st.stickerset._ === "inputStickerSetID" ? "set" : undefined };
  }
}
const poll = (p: any, r: any) => ({
  id: String(p.id),
  question: p.question.text,
  questionEntities: entities(p.question.entities),
  isClosed: !!p.closed,
  isAnonymous: !p.public_voters,
  type: p.quiz ? "quiz" : "regular",
  totalVoterCount: r.total_voters ?? 0,
  openPeriod: p.close_period,
  closeDate: p.close_date,
  explanation: r.solution,
  correctOptionIndexes: r.results?.some((v: any) => v.correct) ? p.answers.flatMap((v: any, i: number) => r.results.some((y: any) => y.correct && y.option[0] === v.option[0]) ? [i] : []) : r.results ? [] : undefined,
  options: p.answers.map((v: any) => {
    const x = r.results?.find((y: any) => y.option[0] === v.option[0]);
    return { text: v.text.text, voterCount: x?.voters ?? 0, isChosen: !!x?.chosen, addedBy: v.added_by ? who(v.added_by) : undefined };
  }),
});
const checklist = (x: any) => ({
  title: x.todo.title.text,
  isExtendableByOthers: !!x.todo.others_can_append,
  isCheckableByOthers: !!x.todo.others_can_complete,
  items: x.todo.list.map((v: any) => {
    const c = x.completions?.find((y: any) => y.id === v.id);
    return { id: v.id, text: v.title.text, type: c ? "checked" : "unchecked", checkedAt: c?.date, checkedBy: c?.completed_by._ === "peerUser" ? who(c.completed_by) : undefined };
  }),
});
const BUTTONS: Record<string, (b: any) => any> = {
  Url: (b) => ({ type: "url", url: b.url }),
  Callback: (b) => ({ type: "callbackData", callbackData: new TextDecoder().decode(b.data) }),
  WebView: (b) => ({ type: "miniApp", url: b.url }),
  SimpleWebView: (b) => ({ type: "miniApp", url: b.url }),
  UrlAuth: (b) => ({ type: "loginUrl", loginUrl: { url: b.url, forwardText: b.fwd_text } }),
  UserProfile: (b) => ({ type: "url", url: `tg://user?id=${b.user_id}` }),
  SwitchInline: (b) => ({ type: b.same_peer ? "switchInlineQueryCurrentChat" : b.peer_types?.length ? "switchInlineQueryChosenChats" : "switchInlineQuery", inlineQuery: b.query }),
  Buy: () => ({ type: "pay" }),
  Game: () => ({ type: "callbackGame" }),
  Copy: (b) => ({ type: "copy", textToCopy: b.copy_text }),
  "": () => ({ type: "text" }),
  RequestPhone: () => ({ type: "requestContact" }),
  RequestGeoLocation: () => ({ type: "requestLocation" }),
  RequestPoll: (b) => ({ type: "requestPoll", pollType: b.quiz === undefined ? undefined : b.quiz ? "quiz" : "regular" }),
  RequestPeer: (b) => ({ type: b.peer_type._ === "requestPeerTypeUser" ? "requestUser" : b.peer_type._ === "requestPeerTypeCreateBot" ? "requestManagedBot" : "requestChat", requestId: b.button_id, ...b.peer_type._ === "requestPeerTypeUser" ? { isBot: b.peer_type.bot, isPremium: b.peer_type.premium } : /Chat$|Broadcast$/.test(b.peer_type._) ? { isChannel: b.peer_type._ === "requestPeerTypeBroadcast", hasUsername: b.peer_type.has_username, isOwner: !!b.peer_type.creator } : {} }),
};
function markup(r: any): any {
  const rows = (l: any[]) => l.map((x) => x.buttons.map((b: any) => ({ text: b.text, ...BUTTONS[b._.slice(14)](b) })));
  switch (r?._) {
    case undefined:
      return undefined;
    case "replyInlineMarkup":
      return { type: "inlineKeyboard", inlineKeyboard: rows(r.rows) };
    case "replyKeyboardMarkup":
      return { type: "keyboard", keyboard: rows(r.rows), isResized: !!r.resize, isOneTime: !!r.single_use, isSelective: !!r.selective, isPersistent: !!r.persistent, inputFieldPlaceholder: r.placeholder };
    case "replyKeyboardHide":
      return { type: "removeKeyboard", isSelective: r.selective };
    case "replyKeyboardForceReply":
      return { type: "forceReply", inputFieldPlaceholder: r.placeholder || undefined, isSelective: r.selective };
  }
}
function forward(f: any) {
  const post = f.channel_post && f.from_id?._ === "peerChannel";
  return {
    date: f.date,
    ...post
      ? { type: "channel", chat: who(f.from_id), messageId: f.channel_post, authorSignature: f.post_author }
      : f.from_id?._ === "peerChannel"
      ? { type: "supergroup", chat: who(f.from_id), title: f.post_author }
      : f.from_id?._ === "peerUser"
      ? { type: "user", user: who(f.from_id) }
      : f.from_name
      ? { type: "hidden", name: f.from_name }
      : { type: "unsupported" },
  };
}
function reactions(r: any) {
  const same = (x: any, y: any) => x._ === y._ && x.emoticon === y.emoticon && x.document_id === y.document_id;
  return r?.results.map((x: any) => ({ reaction: reaction(x.reaction), count: x.count, isChosen: x.chosen_order !== undefined, choosers: (r.recent_reactions ?? []).filter((y: any) => same(x.reaction, y.reaction)).map((y: any) => cid(y.peer_id)) }));
}

function media(m: any): any {
  const x = m.media;
  if (m.rich_message) return { type: "richText" };
  if (m.message && (!x || x._ === "messageMediaWebPage")) return { type: "text", text: m.message, entities: entities(m.entities) };
  if (!x) return { type: "unsupported" };
  const captioned = { caption: m.message, captionEntities: entities(m.entities), selfDestruct: x.ttl_seconds };
  switch (x._) {
    case "messageMediaPhoto":
      return x.photo?._ === "photo" ? { type: x.video ? "livePhoto" : "photo", isSpoiler: !!x.spoiler, photo: photo(x.photo), ...x.video ? { video: file("video", x.video) } : {}, ...captioned } : { type: "unsupported" };
    case "messageMediaDocument": {
      if (x.document?._ !== "document") return { type: "unsupported" };
      const type = attributesOf(x.document.attributes);
      return { type, [type]: file(type, x.document), ...type === "sticker" || type === "videoNote" ? {} : { isSpoiler: !!x.spoiler, ...captioned } };
    }
    case "messageMediaContact":
      return { type: "contact", contact: { firstName: x.first_name, lastName: x.last_name || undefined, phoneNumber: x.phone_number } };
    case "messageMediaGeo":
      return { type: "location", location: { latitude: x.geo.lat, longitude: x.geo.long, horizontalAccuracy: x.geo.accuracy_radius, livePeriod: undefined } };
    case "messageMediaGeoLive":
      return { type: "location", location: { latitude: x.geo.lat, longitude: x.geo.long, horizontalAccuracy: x.geo.accuracy_radius, livePeriod: x.period, heading: x.heading, proximityAlertRadius: x.proximity_notification_radius } };
    case "messageMediaVenue":
      return { type: "venue", venue: { title: x.title, address: x.address, location: { latitude: x.geo.lat, longitude: x.geo.long }, foursquareId: x.venue_id, foursquareType: x.venue_type } };
    case "messageMediaDice":
      return { type: "dice", dice: { value: x.value, emoji: x.emoticon } };
    case "messageMediaGame":
      return { type: "game", game: { title: x.game.title, description: x.game.description, photo: photo(x.game.photo), animation: x.game.document ? { fileSize: Number(x.game.document.size) } : undefined } };
    case "messageMediaPoll":
      return { type: "poll", poll: poll(x.poll, x.results) };
    case "messageMediaToDo":
      return { type: "checklist", checklist: checklist(x) };
    case "messageMediaInvoice":
      return { type: "invoice", invoice: { title: x.title, description: x.description, currency: x.currency, totalAmount: Number(x.total_amount), startParameter: x.start_param } };
    case "messageMediaGiveaway":
      return { type: "giveaway", giveaway: { winnerCount: x.quantity, premiumMonthCount: x.months, parameters: { ...x.channels.length ? { boostedChatId: cid({ channel_id: x.channels[0] }) } : {}, additionalChatIds: x.channels.slice(1).map((v: bigint) => cid({ channel_id: v })), winnerSelectionDate: x.until_date, onlyNewMembers: !!x.only_new_subscribers, countries: x.countries_iso2 ?? [] } } };
    case "messageMediaPaidMedia": {
      const e = x.extended_media.find((v: any) => v._ === "messageExtendedMedia");
      return e ? { type: e.media._ === "messageMediaPhoto" ? "photo" : "video", starCount: Number(x.stars_amount) } : { type: "unsupported" };
    }
  }
  return { type: x._ === "messageMediaWebPage" ? "link" : "unsupported" };
}
function action(m: any): any {
  const x = m.action;
  const channels = m.peer_id._ === "peerChannel" ? m.peer_id.channel_id === 51n ? "channel" : "supergroup" : "";
  switch (x._) {
    case "messageActionChatAddUser":
      return { type: "newChatMembers", newChatMembers: x.users.map(usr) };
    case "messageActionChatJoinedByLink":
    case "messageActionChatJoinedByRequest":
      return m.from_id?._ === "peerUser" ? { type: "newChatMembers", newChatMembers: [who(m.from_id)] } : { type: "unsupported" };
    case "messageActionChatDeleteUser":
      return { type: "leftChatMember", leftChatMember: usr(x.user_id) };
    case "messageActionChatEditTitle":
      return { type: "newChatTitle", newChatTitle: x.title };
    case "messageActionChatEditPhoto":
      return { type: x.photo._ === "photo" ? "newChatPhoto" : "unsupported" };
    case "messageActionChatDeletePhoto":
      return { type: "deletedChatPhoto" };
    case "messageActionChatCreate":
      return { type: "groupCreated", newChatMembers: x.users.map(usr) };
    case "messageActionChannelCreate":
      return { type: channels ? channels + "Created" : "unsupported" };
    case "messageActionChatMigrateTo":
      return { type: "chatMigratedTo", chatMigratedTo: -1000000000000 - Number(x.channel_id) };
    case "messageActionChannelMigrateFrom":
      return { type: "chatMigratedFrom", chatMigratedFrom: -Number(x.chat_id) };
    case "messageActionPinMessage":
      return { type: m.reply_to?._ === "messageReplyHeader" && m.reply_to.reply_to_msg_id === 3 ? "pinnedMessage" : "unsupported" };
    case "messageActionRequestedPeer":
      return x.peers.length && x.peers[0]._ === "peerUser" ? { type: "userShared", userShared: { requestId: x.button_id, userId: Number(x.peers[0].user_id) } } : { type: "unsupported" };
    case "messageActionBotAllowed":
      return { type: "writeAccessAllowed", writeAccessAllowed: { miniAppName: x.app?.title } };
    case "messageActionTopicCreate":
      return { type: "forumTopicCreated", forumTopicCreated: { name: x.title, color: x.icon_color, customEmojiId: x.icon_emoji_id ? String(x.icon_emoji_id) : undefined } };
    case "messageActionTopicEdit":
      if (x.closed) return { type: "forumTopicClosed" };
      if (x.title || x.icon_emoji_id) return { type: "forumTopicEdited" };
      return { type: x.closed === false ? "forumTopicReopened" : /* of the general topic, or nothing */ "unsupported" };
    case "messageActionGroupCallScheduled":
      return { type: "videoChatScheduled", videoChatScheduled: { startDate: x.schedule_date } };
    case "messageActionGroupCall":
      return x.duration === undefined ? { type: "videoChatStarted" } : { type: "videoChatEnded", videoChatEnded: { duration: x.duration } };
    case "messageActionSetMessagesTTL":
      return { type: "newAutoDeleteTime", newAutoDeleteTime: x.period };
    case "messageActionChangeCommunity":
      return x.community_id === undefined ? { type: "removedFromCommunity" } : { type: "addedToCommunity" };
  }
  const simple: Record<string, string> = { messageActionPaymentSentMe: "successfulPayment", messageActionPaymentRefunded: "refundedPayment", messageActionTodoCompletions: "checklistChanged", messageActionTodoAppendTasks: "checklistExtended", messageActionStarGift: "giftNonUpgraded", messageActionStarGiftUnique: "giftUpgraded", messageActionPollAppendAnswer: "pollOptionAdded", messageActionPollDeleteAnswer: "pollOptionRemoved", messageActionScreenshotTaken: "screenshotTaken" };
  return { type: simple[x._] ?? "unsupported" };
}
function message(m: any): any {
  const reply = m.reply_to?._ === "messageReplyHeader" && m.reply_to.reply_to_msg_id ? m.reply_to : null;
  const base = {
    isOutgoing: !!m.out,
    id: m.id,
    chat: who(m.peer_id),
    from: who(m.from_id ?? m.peer_id),
    date: m.date,
    replyToMessageId: reply?.reply_to_msg_id,
    ...reply ? { threadId: reply.reply_to_top_id ?? (reply.forum_topic ? reply.reply_to_msg_id : undefined) } : {},
    isTopicMessage: !!(m.reply_to?._ === "messageReplyHeader" && m.reply_to.forum_topic),
  };
  if (m._ === "messageService") return { ...base, ...action(m) };
  if (m._ === "ephemeralMessage") return { ...base, receiver: usr(m.receiver_id), replyMarkup: markup(m.reply_markup), ...media(m) };
  return {
    ...base,
    ...m.peer_id._ === "peerChannel" ? { link: `https://t.me/${m.peer_id.channel_id === 50n ? "fifty" : `c/${m.peer_id.channel_id}`}/${m.reply_to?.reply_to_top_id ? m.reply_to.reply_to_top_id + "/" : ""}${m.id}` } : { link: undefined },
    replyQuote: reply?.quote ? { text: reply.quote_text ?? "", offset: reply.quote_offset ?? 0, entities: entities(reply.quote_entities) } : undefined,
    replyMarkup: markup(m.reply_markup),
    reactions: reactions(m.reactions),
    views: m.views,
    forwards: m.forwards,
    editDate: m.edit_date || undefined,
    hasProtectedContent: !!m.noforwards,
    mediaGroupId: m.grouped_id === undefined ? undefined : String(m.grouped_id),
    viaBot: m.via_bot_id === undefined ? undefined : usr(m.via_bot_id),
    viaBusinessBot: m.via_business_bot_id === undefined ? undefined : usr(m.via_business_bot_id),
    authorSignature: m.post_author,
    tag: m.from_rank,
    effectId: m.effect ? String(m.effect) : undefined,
    senderBoostCount: m.from_boosts_applied,
    forwardFrom: m.fwd_from ? forward(m.fwd_from) : undefined,
    ...media(m),
  };
}
const PARTICIPANT: Record<string, (p: any) => string> = {
  channelParticipant: () => "member",
  channelParticipantSelf: () => "member",
  channelParticipantCreator: () => "creator",
  channelParticipantAdmin: () => "administrator",
  channelParticipantBanned: (p) => p.banned_rights.view_messages ? "banned" : "restricted",
  channelParticipantLeft: () => "left",
  chatParticipant: () => "member",
  chatParticipantCreator: () => "creator",
  chatParticipantAdmin: () => "administrator",
};
const status = (p: any) => p ? PARTICIPANT[p._](p) : "left";
const REACTION: Record<string, (r: any) => any> = {
  reactionEmoji: (r) => ({ type: "emoji", emoji: r.emoticon }),
  reactionCustomEmoji: (r) => ({ type: "custom", id: String(r.document_id) }),
  reactionPaid: () => ({ type: "paid" }),
};
const reaction = (r: any) => REACTION[r._](r);
const ACTIONS: Record<string, string> = { sendMessageTypingAction: "typing", sendMessageCancelAction: "cancel", sendMessageRecordVideoAction: "recordingVideo", sendMessageUploadVideoAction: "uploadingVideo", sendMessageRecordAudioAction: "recordingVoice", sendMessageUploadAudioAction: "uploadingAudio", sendMessageUploadPhotoAction: "uploadingPhoto", sendMessageUploadDocumentAction: "uploadingDocument", sendMessageGeoLocationAction: "choosingLocation", sendMessageGamePlayAction: "playingGame", sendMessageRecordRoundAction: "recordingVideoNote", sendMessageUploadRoundAction: "uploadingVideoNote", sendMessageChooseStickerAction: "choosingSticker" };
const typing = (chatId: number, fromId: number, u: any) => {
  const x = u.action;
  if (x._ === "sendMessageTextDraftAction" && u._ === "updateUserTyping") return { type: "messageDraft", messageDraft: { id: String(x.random_id), fromId, text: x.text.text, messageThreadId: u.top_msg_id } };
  return ACTIONS[x._] ? { type: "chatAction", chatAction: { chatId, fromId, type: { type: ACTIONS[x._], progress: x.progress }, messageThreadId: u.top_msg_id } } : null;
};

interface Kind {
  update: string;
  /** What the application is told of it, as far as it is checked. */
  told: (u: any) => any;
  bot?: boolean;
  prepare?: (u: any) => any;
}
const m = (u: any) => u.message._ === "messageEmpty" ? null : message(u.message);
const business = (u: any) => ({ ...m(u), businessConnectionId: u.connection_id, ...u.reply_to_message ? { replyToMessageId: u.reply_to_message.id, replyToMessage: message(u.reply_to_message) } : {} });
const inChannel = (u: any) => (u.message.peer_id &&= { _: "peerChannel", channel_id: 50n }, u);
const answered = (u: any) => {
  if (u.reply_to_message && u.reply_to_message._ === "messageEmpty") delete u.reply_to_message;
  if (u.reply_to_message) u.message.reply_to = { _: "messageReplyHeader", reply_to_msg_id: u.reply_to_message.id };
  return u;
};
/** Reply keyboards are not of inline buttons. */
const plainButtons = (v: any) => {
  if (!v || typeof v !== "object" || v instanceof Uint8Array) return;
  if (v._ === "replyKeyboardMarkup") { for (const r of v.rows) r.buttons = r.buttons.map((b: any) => b._ === "keyboardButtonCallback" ? { _: "keyboardButton", text: b.text } : b); }
  for (const x of Object.values(v)) plainButtons(x);
};
const KINDS: Kind[] = [
  { update: "updateNewMessage", told: (u) => m(u) && { type: "message", message: m(u) } },
  { update: "updateNewChannelMessage", prepare: inChannel, told: (u) => m(u) && { type: "message", message: m(u) } },
  { update: "updateEditMessage", told: (u) => m(u) && { type: "editedMessage", editedMessage: m(u) } },
  { update: "updateEditChannelMessage", prepare: inChannel, told: (u) => m(u) && { type: "editedMessage", editedMessage: m(u) } },
  { update: "updateNewScheduledMessage", told: (u) => m(u) && { type: "scheduledMessage", scheduledMessage: { ...m(u), isScheduled: true } } },
  { update: "updateNewEphemeralMessage", told: (u) => ({ type: "message", message: m(u) }) },
  { update: "updateEditEphemeralMessage", told: (u) => ({ type: "editedMessage", editedMessage: m(u) }) },
  { update: "updateBotNewBusinessMessage", bot: true, prepare: answered, told: (u) => m(u) && { type: "message", message: business(u) } },
  { update: "updateBotEditBusinessMessage", bot: true, prepare: answered, told: (u) => m(u) && { type: "editedMessage", editedMessage: business(u) } },
  { update: "updateDeleteChannelMessages", told: (u) => ({ type: "deletedMessages", deletedMessages: u.messages.map((x: number) => ({ chatId: -1000000000000 - Number(u.channel_id), messageId: x })) }) },
  { update: "updateDeleteScheduledMessages", told: (u) => ({ type: "deletedMessages", isScheduled: true, deletedMessages: u.messages.map((x: number) => ({ chatId: cid(u.peer), messageId: x })) }) },
  { update: "updateBotDeleteBusinessMessage", bot: true, told: (u) => ({ type: "deletedMessages", businessConnectionId: u.connection_id, deletedMessages: u.messages.map((x: number) => ({ chatId: cid(u.peer), messageId: x })) }) },
  { update: "updateDeleteEphemeralMessages", told: (u) => ({ type: "deletedMessages", isEphemeral: true, deletedMessages: u.ids.map((x: number) => ({ chatId: cid(u.peer), messageId: x })) }) },
  { update: "updateTranscribedAudio", told: (u) => ({ type: "voiceTranscription", voiceTranscription: { id: String(u.transcription_id), text: u.text, isCompleted: !u.pending } }) },
  { update: "updateUserTyping", told: (u) => typing(Number(u.user_id), Number(u.user_id), u) },
  { update: "updateChatUserTyping", told: (u) => typing(-Number(u.chat_id), cid(u.from_id), u) },
  { update: "updateChannelUserTyping", told: (u) => typing(-1000000000000 - Number(u.channel_id), cid(u.from_id), u) },
  { update: "updateBotGuestChatQuery", bot: true, told: (u) => u.message._ === "message" ? { type: "guestQuery", guestQuery: { id: String(u.query_id), message: m(u) } } : "any" },
  { update: "updateBotCommands", told: (u) => ({ type: "botCommands", botCommands: { botId: Number(u.bot_id), chatId: cid(u.peer), commands: u.commands.map((x: any) => ({ command: x.command, description: x.description })) } }) },
  { update: "updateBotBusinessConnect", bot: true, told: (u) => ({ type: "businessConnection", businessConnection: { id: u.connection.connection_id, user: usr(u.connection.user_id), date: u.connection.date, canReply: !!u.connection.rights?.reply, isEnabled: !u.connection.disabled } }) },
  { update: "updateManagedBot", bot: true, told: (u) => ({ type: "managedBot", user: usr(u.user_id), bot: usr(u.bot_id) }) },
  { update: "updateBotPrecheckoutQuery", bot: true, told: (u) => ({ type: "preCheckoutQuery", preCheckoutQuery: { id: String(u.query_id), from: usr(u.user_id), currency: u.currency, totalAmount: Number(u.total_amount), shippingOptionId: u.shipping_option_id } }) },
  { update: "updateBotMessageReaction", bot: true, told: (u) => ({ type: "messageReactions", messageReactions: { chat: who(u.peer), messageId: u.msg_id, date: u.date, ...u.actor._ === "peerUser" ? { user: who(u.actor), actorChat: undefined } : { actorChat: who(u.actor), user: undefined }, oldReactions: u.old_reactions.map(reaction), newReactions: u.new_reactions.map(reaction) } }) },
  { update: "updateBotMessageReactions", bot: true, told: (u) => ({ type: "messageReactionCount", messageReactionCount: { chat: who(u.peer), messageId: u.msg_id, date: u.date, reactions: u.reactions.map((x: any) => ({ count: x.count, reaction: reaction(x.reaction) })) } }) },
  { update: "updateUserEmojiStatus", told: (u) => u.emoji_status._ === "emojiStatusEmpty" ? { type: "emojiStatusRemoved", userId: Number(u.user_id) } : { type: "emojiStatus", userId: Number(u.user_id), emojiStatus: { type: u.emoji_status._ === "emojiStatus" ? "customEmoji" : "gift", customEmojiId: String(u.emoji_status.document_id), until: u.emoji_status.until } } },
  { update: "updateGroupCall", prepare: (u) => (u.peer ??= { _: "peerChannel", channel_id: 50n }, u), told: (u) => ({ type: "videoChat", videoChat: u.call._ === "groupCallDiscarded" ? { type: "ended", id: String(u.call.id), duration: u.call.duration } : { type: u.call.schedule_date ? "scheduled" : "active", id: String(u.call.id), participantCount: u.call.participants_count, title: u.call.title ?? "" } }) },
  { update: "updateBotCallbackQuery", bot: true, told: (u) => ({ type: "callbackQuery", callbackQuery: { id: String(u.query_id), from: usr(u.user_id), chatInstance: String(u.chat_instance), gameShortName: u.game_short_name, ...u.msg_id === 3 ? { message: { id: 3, chat: who(u.peer) } } : { message: undefined } } }) },
  { update: "updateInlineBotCallbackQuery", bot: true, told: (u) => ({ type: "callbackQuery", callbackQuery: { id: String(u.query_id), from: usr(u.user_id), chatInstance: String(u.chat_instance), gameShortName: u.game_short_name, message: undefined } }) },
  { update: "updateEphemeralBotCallbackQuery", bot: true, told: (u) => ({ type: "callbackQuery", callbackQuery: { id: String(u.query_id), from: usr(u.user_id), message: message(u.message) } }) },
  { update: "updateChannelParticipant", told: (u) => !u.prev_participant && !u.new_participant ? "any" : { type: "chatMember", chatMember: { chat: { id: -1000000000000 - Number(u.channel_id) }, from: usr(u.actor_id), date: u.date, oldChatMember: { status: status(u.prev_participant) }, newChatMember: { status: status(u.new_participant), member: usr(u.user_id) } } } },
  { update: "updateChatParticipant", told: (u) => !u.prev_participant && !u.new_participant ? "any" : { type: "chatMember", chatMember: { chat: { id: -Number(u.chat_id) }, from: usr(u.actor_id), date: u.date, oldChatMember: { status: status(u.prev_participant) }, newChatMember: { status: status(u.new_participant), member: usr(u.user_id) } } } },
  { update: "updateBotChatInviteRequester", bot: true, told: (u) => ({ type: "joinRequest", joinRequest: { chat: who(u.peer), from: usr(u.user_id), date: u.date, bio: u.about } }) },
  { update: "updateBotInlineQuery", bot: true, told: (u) => ({ type: "inlineQuery", inlineQuery: { id: String(u.query_id), from: usr(u.user_id), query: u.query, offset: u.offset } }) },
  { update: "updateBotInlineSend", bot: true, told: (u) => ({ type: "chosenInlineResult", chosenInlineResult: { resultId: u.id, from: usr(u.user_id), query: u.query } }) },
  { update: "updateWebPage", told: (u) => ({ type: "linkPreview", linkPreview: { ...u.webpage._ !== "webPage" ? { type: u.webpage._ === "webPagePending" ? "loading" : "notLoaded" } : {}, id: String(u.webpage.id) } }) },
  { update: "updateMessagePoll", prepare: (u) => (u.poll ??= gen.make("poll"), u.poll_id = u.poll.id, u), told: (u) => ({ type: "poll", poll: poll(u.poll, u.results) }) },
  { update: "updateMessagePollVote", bot: true, told: (u) => ({ type: "pollAnswer", pollAnswer: { pollId: String(u.poll_id), from: who(u.peer), optionIndexes: u.options.map((x: any) => x[0] - 48) } }) },
  { update: "updateStory", told: (u) => u.story._ === "storyItemDeleted" ? { type: "deletedStory", deletedStory: { chatId: cid(u.peer), storyId: u.story.id } } : u.story._ === "storyItem" ? { type: "story", story: { id: u.story.id, chat: who(u.peer), date: u.story.date, caption: u.story.caption, isOutgoing: !!u.story.out } } : null },
];

/** Messages in a form that leaves out what follows from where they are. */
const SHORT: Kind[] = [
  { update: "updateShortMessage", told: (u) => ({ type: "message", message: message({ ...u, _: "message", peer_id: { _: "peerUser", user_id: u.user_id }, from_id: { _: "peerUser", user_id: u.out ? SELF : u.user_id } }) }) },
  { update: "updateShortChatMessage", told: (u) => ({ type: "message", message: message({ ...u, _: "message", peer_id: { _: "peerChat", chat_id: 9n }, from_id: { _: "peerUser", user_id: u.from_id } }) }), prepare: (u) => (u.chat_id = 9n, u.from_id = u.out ? SELF : 12n, u) },
];
/** What messages are sent with, and what follows for the message. */
const SENT: [string, any, any][] = [
  ["", {}, {}],
  ["silent", { isSilent: true }, { silent: true }],
  ["reply", { replyTo: { type: "message", messageId: 4 } }, { reply_to: { _: "messageReplyHeader", reply_to_msg_id: 4 } }],
  ["reply with a quote", { replyTo: { type: "message", messageId: 4, quote: { text: "ab", offset: 1, entities: [{ type: "bold", offset: 0, length: 1 }] } } }, { reply_to: { _: "messageReplyHeader", reply_to_msg_id: 4, quote: true, quote_text: "ab", quote_offset: 1, quote_entities: [{ _: "messageEntityBold", offset: 0, length: 1 }] } }],
  ["protected reply to a story", { isContentProtected: true, replyTo: { type: "story", chatId: 12, storyId: 3 } }, { noforwards: true, reply_to: { _: "messageReplyStoryHeader", peer: { _: "peerUser", user_id: 12n }, story_id: 3 } }],
  ["effect", { effectId: "7" }, { effect: 7n }],
  ["forced reply", { replyMarkup: { type: "forceReply" } }, { reply_markup: { _: "replyKeyboardForceReply" } }],
  ["buttons", { replyMarkup: { type: "inlineKeyboard", inlineKeyboard: [[{ type: "callbackData", text: "b", callbackData: "d" }, { type: "loginUrl", text: "l", loginUrl: { url: "https://a.b/c", botUsername: "abot", forwardText: "f" } }, { type: "url", text: "u", url: "https://x.y/" }]] } }, { reply_markup: { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: [{ _: "keyboardButtonCallback", text: "b", data: new Uint8Array([100]) }, { _: "keyboardButtonUrlAuth", text: "l", fwd_text: "f", url: "https://a.b/c", button_id: 0 }, { _: "keyboardButtonUrl", text: "u", url: "https://x.y/" }] }] } }],
  ["protected", { isContentProtected: true }, { noforwards: true }],
];
/** Where something differs from what is expected of it. */
function differs(want: any, got: any, path = ""): string {
  if (want === null || typeof want !== "object") return Object.is(want, got) ? "" : `${path || "it"} is ${show(got)} instead of ${show(want)}`;
  if (got === null || typeof got !== "object") return `${path || "it"} is ${show(got)}`;
  if (Array.isArray(want)) {
    if (!Array.isArray(got) || got.length !== want.length) return `${path} is ${show(got)} instead of ${show(want)}`;
  }
  for (const k of Object.keys(want)) {
    const d = differs(want[k], got[k], path ? `${path}.${k}` : k);
    if (d) return d;
  }
  return "";
}
const show = (v: any) => JSON.stringify(v, (_, x) => typeof x === "bigint" ? `${x}n` : x) ?? "missing";
/** A message that was sent reaches the application as it was sent. */
function sent(depth: number, part: number, parts: number): Scenario {
  const isBot = part === 1;
  return {
    name: `updateShortSentMessage ${part + 1}/${parts}`,
    async run(ctl: Ctl) {
      n = 100;
      const app = new App(ctl, { isBot, params: { defaultHandlers: false, outgoingMessages: true } });
      app.create();
      let answer: any, sent: any, value: any;
      app.onRequest = (r) => {
        switch (r.q._) {
          case "messages.getMessages":
            return { result: { _: "messages.messages", messages: r.q.id.map((x: any) => x.id === sent?.id ? sent : ({ ...gen.make("message"), id: x.id, peer_id: { _: "peerUser", user_id: 11n } })), ...people, topics: [] } };
          case "messages.getStickerSet":
            return { result: { _: "messages.stickerSet", set: { ...gen.make("stickerSet"), short_name: "set" }, packs: [], keywords: [], documents: [] } };
          case "messages.sendMessage":
            return { result: structuredClone(answer) };
        }
      };
      const got: any[] = [];
      app.client.use((ctx: any, next: any) => {
        const u = ctx.toJSON?.() ?? ctx;
        if (u.type !== "update" && !(u.update && Object.keys(u).length === 1)) got.push(u);
        return next();
      });
      await app.start();
      app.push({ _: "updates", updates: [{ _: "updateConfig" }], ...people, date: 1, seq: 0 });
      await settle();
      got.length = 0;
      let i = 0;
      for (const { label, v } of gen.vary("updateShortSentMessage", depth, "updateShortSentMessage")) {
        if (label !== "updateShortSentMessage" && i++ % parts !== part) continue;
        if (v.media && v.media._ !== "messageMediaWebPage") continue; // texts only
        for (const [with_, params, fields] of SENT) {
          if (with_ && label !== "updateShortSentMessage" || params.replyMarkup && !isBot) continue;
          answer = { ...v, out: true, pts: 0, pts_count: 0, id: ++n };
          ctl.step(`${label} ${with_}`);
          let err: any = null;
          sent = { ...answer, _: "message", message: "abcdef", peer_id: { _: "peerUser", user_id: 11n }, from_id: { _: "peerUser", user_id: SELF }, ...fields };
          app.client.sendMessage(11, "abcdef", params).then((v: any) => value = v, (e: any) => err = e);
          await settle();
          check(!err && value, () => `sending fails: ${err?.stack ?? err}`, "sending fails");
          const g = got.splice(0);
          const want = { type: "message", message: message(sent) };
          const problem = (g.length !== 1 ? `is told ${g.length ? g.map((x) => x.type) : "nothing"}` : differs(want, g[0])) || differs(want.message, value);
          ctl.count("updates");
          check(!problem, () => `of ${label} ${with_}: the application ${problem}`, `${label} ${with_}: ${problem}`);
        }
      }
    },
  };
}
export function scenario(kind: Kind, depth: number, part: number, parts: number): Scenario {
  const short = SHORT.includes(kind);
  return {
    name: `${kind.update} ${part + 1}/${parts}`,
    async run(ctl: Ctl) {
      n = 100;
      const app = new App(ctl, { isBot: kind.bot, params: { defaultHandlers: false, outgoingMessages: true } });
      app.create();
      app.onRequest = (r) => {
        switch (r.q._) {
          case "messages.getMessages":
          case "channels.getMessages":
            return { result: { ...r.q.channel ? { _: "messages.channelMessages", pts: 1, count: 1 } : { _: "messages.messages" }, messages: r.q.id.map((x: any) => x.id === 3 ? { ...gen.make("message"), id: 3, message: "three", peer_id: r.q.channel ? { _: "peerChannel", channel_id: r.q.channel.channel_id } : { _: "peerUser", user_id: 11n } } : { _: "messageEmpty", id: x.id }), topics: [], ...people } };
          case "messages.getStickerSet":
            return { result: { _: "messages.stickerSet", set: { ...gen.make("stickerSet"), short_name: "set" }, packs: [], keywords: [], documents: [] } };
        }
      };
      const got: any[] = [];
      app.client.use((ctx: any, next: any) => {
        const u = ctx.toJSON?.() ?? ctx;
        if (u.type !== "update" && !(u.update && Object.keys(u).length === 1)) got.push(u);
        return next();
      });
      await app.start();
      app.push({ _: "updates", updates: [{ _: "updateConfig" }], ...people, date: 1, seq: 0 });
      await settle();
      got.length = 0;
      let i = 0, qts = 1;
      const fails = (globalThis as any).Y01_FAILS as Map<string, string> | undefined;
      const only = (globalThis as any).Y01_ONLY as RegExp | undefined;
      for (const { label, v } of gen.vary(kind.update, depth, kind.update)) {
        if (i++ % parts !== part || only && !only.test(label)) continue;
        let u = structuredClone(v);
        if ("pts" in u) u.pts = 0, u.pts_count = 0;
        plainButtons(u);
        u = kind.prepare?.(u) ?? u;
        const want = kind.told(u);
        if (want === "any") continue;
        if ("qts" in u) u.qts = ++qts;
        ctl.step(label);
        if (ctl.log.length > 4000) ctl.log.length = 0;
        app.push(short ? structuredClone(u) : { _: "updates", updates: [structuredClone(u)], ...people, date: 1, seq: 0 });
        await settle();
        const g = got.splice(0);
        const problem = want === null ? (g.length ? `is told ${g.map((x) => x.type)}` : "") : g.length !== 1 ? `is told ${g.length ? g.map((x) => x.type) : "nothing"}` : differs(want, g[0]);
        ctl.count("updates");
        ctl.outcome(g.map((x) => `${x.type} ${x[x.type]?.type ?? ""}`).join());
        if (fails) { if (problem) fails.set(label, problem); }
        else check(!problem, () => `of ${label}: the application ${g.length === 1 && want ? "is told " + g[0].type + " where " : ""}${problem}`, `${label}: ${problem}`);
      }
    },
  };
}

export const kinds = KINDS;
export default {
  id: "Y01",
  level: "model_checking",
  rule: "Each update is pushed through the real client; it has to be told once, as what it is, with the values it came with. The values of an update are enumerated from the schema: an ordinary value, and everything that differs from it along one path of fields, constructors, and elements of lists, up to the stated depth.",
  assumptions: [
    "The server sends the users and chats that updates mention.",
    "What the server does not send is left out: empty geographical points and stickers, photos of stories and polls that are gone, inline buttons in reply keyboards and the other way around, page blocks that are only found in instant views, basic groups as senders, service messages without a sender, parts of texts of unknown forms in rich messages.",
    "Two fields of an update that are unusual at once are not tried, other than all of them being present at once.",
  ],
  exhaustive: true,
  scenarios: (tier) => [...[0, 1].map((i) => sent(tier === "quick" ? 3 : 4, i, 2)), ...[...SHORT, ...KINDS].flatMap((k) => Array.from({ length: 8 }, (_, i) => scenario(k, tier === "quick" ? 4 : 5, i, 8)))],
} satisfies CheckDef;
