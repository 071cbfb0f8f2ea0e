// What the client asks the server for when it is to find things out, and what it makes of every form of answer.
// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Scenario } from "../lib/explore.ts";
import { settle } from "../lib/world.ts";
import { testKey } from "../lib/mt.ts";
import { type App, channel, group, SELF, selfUser, user } from "../lib/client.ts";
import { ALICE, BOB, CHANNEL, type Exp, GROUP, inputChannel, type Opt, scenario, type Server, type Spec } from "../lib/calls.ts";
import { arg, bad, both, chatOnly, done, flags, is, limits, nothing, nowhere, o, peer, put, type Req, table, U, yes } from "../lib/table.ts";
import { type Variant, Variants } from "../lib/variants.ts";
import { Api } from "/repo/2_tl.ts";
import { StorageMemory } from "/repo/storage/2_storage_memory.ts";
import { FileType, serializeFileId } from "/repo/types/_file_id.ts";

const REF = new Uint8Array([7, 8, 9]);
const theUsers = () => [user(12n), user(14n, { bot: true, bot_info_version: 1 })];
const theChats = () => [channel(50n), group(9n)];
const listed = (f: () => Record<string, any>) => () => Object.entries(f()).map(([label, v]): Variant => ({ label, v }));
const ATTRIBUTES = listed(() => ({
  none: [],
  file: [{ _: "documentAttributeFilename", file_name: "f" }],
  video: [{ _: "documentAttributeFilename", file_name: "f" }, { _: "documentAttributeVideo", duration: 3.5, w: 4, h: 5 }],
  sticker: [{ _: "documentAttributeImageSize", w: 6, h: 7 }, { _: "documentAttributeSticker", alt: "e", stickerset: { _: "inputStickerSetEmpty" } }],
  audio: [{ _: "documentAttributeAudio", duration: 8, title: "t", performer: "p" }],
}));
const gen: Variants = new Variants(Api.schema as any, {
  ordinary: { Peer: "peerUser", PhotoSize: "photoSize", GroupCall: "groupCall", EmojiStatus: "emojiStatus", Document: "document", MessageEntity: "messageEntityBold", PrivacyRule: "privacyValueAllowUsers", ReportResult: "reportResultReported" },
  fields: { "photoSize.type": () => "m", "document.file_reference": () => REF, "user.id": () => 12n, "channel.id": () => 50n, "chat.id": () => 9n, "peerUser.user_id": () => 12n },
  present: ["messageMediaWebPage.webpage"],
  never: (c, path) => {
    if (c === "no webpage") return true;
    if (/^(documentEmpty|photoEmpty|userEmpty|chatEmpty|emojiStatusEmpty|inputEmojiStatusCollectible|webPageNotModified)$/.test(c)) return true;
    if (/NotModified$/.test(c)) return true;
    if (/^peerC/.test(c) && /peerBlocked/.test(path)) return true;
    if (/^input/.test(c) && c !== "inputStickerSetEmpty") return true;
    // only for the chats and users of certain answers
    if (/^(community|communityForbidden)$/.test(c)) return true;
    return false;
  },
  shallow: { User: 0, Chat: 0, Page: 0, MessageMedia: 3, WebPage: 2, Document: 2, Photo: 1, StarGift: 0, StickerSet: 1 },
  values: {
    "contacts.blocked.users": listed(() => ({ all: theUsers() })),
    "contacts.blockedSlice.users": listed(() => ({ all: theUsers() })),
    "account.webAuthorizations.users": listed(() => ({ all: theUsers() })),
    "account.privacyRules.users": listed(() => ({ all: theUsers() })),
    "account.privacyRules.chats": listed(() => ({ all: theChats() })),
    "document.attributes": ATTRIBUTES,
    "photoSize.type": listed(() => ({ m: "m", x: "x" })),
    "photo.sizes": listed(() => ({ one: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 4 }] })),
    "webPage.attributes": listed(() => ({ none: [] })),
    "webPage.type": listed(() => Object.fromEntries(["article", "photo", "video", "audio", "document", "telegram_user"].map((v) => [v, v]))),
    "webPage.embed_type": listed(() => ({ iframe: "iframe", mp4: "video/mp4" })),
    "webPage.url": listed(() => ({ plain: "https://e.org/x", timed: "https://e.org/x?t=5" })),
    "peerSettings.business_bot_id": listed(() => ({ bot: 14n })),
    "webPage.photo": listed(() => ({ one: gen.make("photo") })),
  },
});
for (const c of ["contacts.blocked", "contacts.blockedSlice"]) for (const f of ["users", "chats"]) gen.opt.fields![`${c}.${f}`] = f === "users" ? theUsers : theChats;
for (const c of ["account.webAuthorizations", "account.privacyRules", "messages.peerSettings"]) gen.opt.fields![`${c}.users`] = theUsers;
gen.opt.fields!["account.privacyRules.chats"] = theChats;
for (const c of ["privacyValueAllowChatParticipants", "privacyValueDisallowChatParticipants"]) {
  gen.opt.fields![`${c}.chats`] = () => [50n, 9n];
  gen.opt.values![`${c}.chats`] = listed(() => ({ none: [], channel: [50n], group: [9n], unknown: [77n, 9n] }));
}
for (const c of ["privacyValueAllowUsers", "privacyValueDisallowUsers"]) gen.opt.values![`${c}.users`] = listed(() => ({ none: [], two: [14n, 12n], unknown: [77n, 12n] }));

/** All forms of an answer of a type. */
function forms(type: string, depth: number): Variant[] {
  const list: Variant[] = [], seen = new Set<string>();
  for (const v of gen.of(type, depth)) {
    const key = JSON.stringify(v.v, (_k, x) => typeof x === "bigint" ? `${x}n` : x);
    if (!seen.has(key)) seen.add(key), list.push(v);
  }
  return list;
}

// ---- what an answer means
const fileId = (type: any, d: any) => serializeFileId({ type, dcId: d.dc_id, fileReference: d.file_reference, location: { type: "common", id: d.id, accessHash: d.access_hash } } as any);
const clean = (v: any): any => JSON.parse(JSON.stringify(v, (_k, x) => typeof x === "bigint" ? `${x}n` : x));
/** Whether everything expected is there; what is expected to be undefined is not. */
function match(want: any, got: any, path: string): string | null {
  if (want === undefined) return got === undefined ? null : `${path} is ${JSON.stringify(got)} rather than missing`;
  if (Array.isArray(want)) {
    if (!Array.isArray(got) || got.length !== want.length) return `${path} is ${JSON.stringify(got)} rather than ${want.length} elements`;
    for (let i = 0; i < want.length; i++) {
      const m = match(want[i], got[i], `${path}[${i}]`);
      if (m) return m;
    }
    return null;
  }
  if (want && typeof want === "object") {
    if (!got || typeof got !== "object") return `${path} is ${JSON.stringify(got)} rather than ${JSON.stringify(want)}`;
    for (const k of Object.keys(want)) {
      const m = match(want[k], got[k], `${path}.${k}`);
      if (m) return m;
    }
    return null;
  }
  return want === got ? null : `${path} is ${JSON.stringify(got)} rather than ${JSON.stringify(want)}`;
}
const expectIs = (want: any, v: any, from: any) => {
  const m = match(want, v === undefined || v === null ? v : clean(v), "what the call gives");
  check(m === null, () => `${m}\n  for ${JSON.stringify(clean(from))}`, "what the call gives");
};

const { method, specs: rows } = table();
/** A method without anything to choose, with every form of the answer. */
const pending: ((extra: number) => void)[] = [];
function asks(name: string, args: (x: Exp) => any[], req: Req, type: string, depth: number, want: (a: any, x: Exp) => any, opts: Opt[] = [], more: Partial<Spec> = {}) {
  pending.push((extra) => {
    const list = forms(type, depth + extra);
    method(name, args, req, (_q, x) => structuredClone((x.a.answer ?? list[0]).v), [...list.slice(1).map((f) => ({ key: "answer", v: f, arg: true })), ...opts], {
      ...nowhere,
      ...more,
      result: (v: any, x: Exp) => {
        const a = (x.a.answer ?? list[0]).v;
        expectIs(want(a, x), v, a);
      },
    });
  });
}
const aUser = (u: any) => ({ id: Number(u.id ?? u), firstName: u.first_name === undefined ? `u${u}` : u.first_name });
const aChat = (c: any) => ({ id: c._ === "chat" || c._ === "chatForbidden" ? -Number(c.id) : -1000000000000 - Number(c.id), title: c.title });
const is1 = (v: any) => !!v;

asks("getAppSupport", () => [], U(() => ({ _: "help.getSupport" })), "help.Support", 3, (a) => ({ phoneNumber: a.phone_number, user: { id: Number(a.user.id) } }));
asks("getAppSupportName", () => [], U(() => ({ _: "help.getSupportName" })), "help.SupportName", 2, (a) => a.name);
const json = (j: any): any => j._ === "jsonNull" ? null : j._ === "jsonArray" ? j.value.map(json) : j._ === "jsonObject" ? Object.fromEntries(j.value.map((v: any) => [v.key, json(v.value)])) : j.value;
asks("getApplicationConfiguration", () => [], () => ({ _: "help.getAppConfig", hash: 0 }), "help.AppConfig", 5, (a) => json(a.config));
asks("getAuthorizationSessions", () => [], U(() => ({ _: "account.getAuthorizations" })), "account.Authorizations", 3, (a) =>
  a.authorizations.map((s: any) => ({
    id: String(s.hash),
    date: s.date_created,
    lastActivity: s.date_active,
    isCurrent: is1(s.current),
    isOfficialApp: is1(s.official_app),
    isPasswordPending: is1(s.password_pending),
    isEncryptedRequestsDisabled: is1(s.encrypted_requests_disabled),
    isCallRequestsDisabled: is1(s.call_requests_disabled),
    isUnconfirmed: is1(s.unconfirmed),
    deviceModel: s.device_model,
    platform: s.platform,
    systemVersion: s.system_version,
    apiId: s.api_id,
    appName: s.app_name,
    appVersion: s.app_version,
    ipAddress: s.ip,
    country: s.country,
    region: s.region,
  })));
asks("getBlockedUsers", (x) => [x.p], U(() => ({ _: "contacts.getBlocked", offset: 0, limit: 100 })), "contacts.Blocked", 3, (a) => ({
  count: a.count ?? a.blocked.length,
  blockedUsers: a.blocked.map((b: any) => ({ user: aUser(b.peer_id.user_id), blockedAt: b.date })),
}), [...flags([["isBlockedFromViewingStories", "my_stories_from"]]), o("offset", 7, put({ offset: 7 })), ...limits]);
asks("getConnectedWebsites", () => [], U(() => ({ _: "account.getWebAuthorizations" })), "account.WebAuthorizations", 3, (a) =>
  a.authorizations.map((s: any) => ({
    id: String(s.hash),
    bot: { id: 14 },
    domain: s.domain,
    browser: s.browser,
    platform: s.platform,
    createdAt: s.date_created,
    lastActiveAt: s.date_active,
    ipAddress: s.ip,
    ipAddressRegion: s.region,
  })));
asks("getCountries", () => ["de"], U(() => ({ _: "help.getCountriesList", hash: 0, lang_code: "de" })), "help.CountriesList", 5, (a) =>
  a.countries.map((c: any) => ({
    defaultName: c.default_name,
    name: c.name,
    code: c.iso2,
    isHidden: is1(c.hidden),
    callingCodes: c.country_codes.map((d: any) => ({ countryCode: d.country_code, prefixes: d.prefixes ?? [], patterns: d.patterns ?? [] })),
  })));
const attribute = (d: any, _: string) => d.attributes.find((v: any) => v._ === _);
const sticker = (d: any) => ({ fileId: fileId(FileType.Sticker, d), fileSize: Number(d.size), emoji: attribute(d, "documentAttributeSticker")?.alt ?? undefined });
const animation = (d: any) => ({
  fileId: fileId(FileType.Animation, d),
  fileSize: Number(d.size),
  mimeType: d.mime_type,
  fileName: attribute(d, "documentAttributeFilename")?.file_name,
  width: attribute(d, "documentAttributeVideo")?.w ?? 0,
  height: attribute(d, "documentAttributeVideo")?.h ?? 0,
  duration: attribute(d, "documentAttributeVideo")?.duration ?? 0,
});
const STICKER = { _: "document", id: 5n, access_hash: 6n, file_reference: REF, date: 1, mime_type: "image/webp", size: 9n, dc_id: 2, attributes: ATTRIBUTES()[3].v };
for (const [name, req, key, a] of [
  ["getFavoriteStickers", "messages.getFavedStickers", "stickers", { _: "messages.favedStickers", hash: 1n, packs: [] }],
  ["getRecentStickers", "messages.getRecentStickers", "stickers", { _: "messages.recentStickers", hash: 1n, packs: [], dates: [] }],
  ["getSavedAnimations", "messages.getSavedGifs", "gifs", { _: "messages.savedGifs", hash: 1n }],
  ["getSavedNotificationSounds", "account.getSavedRingtones", "ringtones", { _: "account.savedRingtones", hash: 1n }],
] as [string, string, string, any][]) {
  pending.push((extra) => {
    const list = key === "stickers"
      ? [[STICKER], [], [STICKER, { ...STICKER, id: 7n, dc_id: 4, attributes: [...STICKER.attributes].reverse() }], [{ ...STICKER, attributes: [{ ...STICKER.attributes[0] }, { ...STICKER.attributes[1], alt: "x" }] }], [{ ...STICKER, mime_type: "application/x-tgsticker", size: 0n }]]
      : [[gen.make("document")], ...forms("Vector<Document>", 3 + extra).map((v) => v.v)];
    const answer = (x: Exp) => x.a.list ?? list[0];
    method(name, () => [], U(() => ({ _: req, hash: 0n })), (_q, x) => ({ ...structuredClone(a), [key]: structuredClone(answer(x)) }), list.slice(1).map((l) => arg("list", l)), {
      ...nowhere,
      result: (v: any, x: Exp) => {
        const want = key === "stickers" ? sticker : key === "gifs" ? animation : (d: any) => ({ fileId: fileId(FileType.Ringtone, d), date: d.date, duration: attribute(d, "documentAttributeAudio")?.duration ?? 0, title: attribute(d, "documentAttributeAudio")?.title });
        expectIs(answer(x).map(want), v, answer(x));
      },
    });
  });
}
method("getInactiveChats", () => [], U(() => ({ _: "channels.getInactiveChannels" })), (_q, x) => ({ _: "messages.inactiveChats", ...{ dates: [7, 9], chats: [channel(51n), group(8n)], ...(x.a.answer ?? {}) }, users: [] }), [
  arg("answer", { dates: [9], chats: [group(8n)] }),
  arg("answer", { dates: [1, 2, 3], chats: [group(8n), channel(52n, { megagroup: undefined, broadcast: true }), channel(51n)] }),
], {
  ...nowhere,
  result: (v: any, x: Exp) => {
    const a = x.a.answer ?? { dates: [7, 9], chats: [channel(51n), group(8n)] };
    expectIs(a.chats.map((c: any, i: number) => ({ lastActivity: a.dates[i], chat: aChat(c) })), v, a);
  },
});
const someChats = () => [channel(51n), group(8n), channel(52n, { megagroup: undefined, broadcast: true })];
const chatsForms: Opt[] = [arg("answer", { _: "messages.chatsSlice", count: 9, chats: someChats() }), arg("answer", { _: "messages.chats", chats: [] }), arg("answer", { _: "messages.chats", chats: [{ _: "channelForbidden", id: 53n, access_hash: 1n, title: "f", broadcast: true }, channel(51n, { forum: true })] })];
const chatsAnswer = (_q: any, x: Exp) => structuredClone(x.a.answer ?? { _: "messages.chats", chats: someChats() });
const chatsResult = (keep: (c: any) => boolean = () => true) => (v: any, x: Exp) => {
  const a = x.a.answer ?? { chats: someChats() };
  expectIs(a.chats.filter(keep).map(aChat), v, a);
};
const broadcast = (c: any) => c._ !== "chat" && !!c.broadcast;
method("getAdministeredChats", (x) => [x.p], U(() => ({ _: "channels.getAdminedPublicChannels" })), chatsAnswer, [...flags([["isForPersonalChannel", "for_personal"]]), ...chatsForms], { ...nowhere, result: chatsResult() });
method("getDiscussionChatSuggestions", () => [], U(() => ({ _: "channels.getGroupsForDiscussion" })), chatsAnswer, chatsForms, { ...nowhere, result: chatsResult() });
method("getRecommendedChannels", () => [], U(() => ({ _: "channels.getChannelRecommendations" })), chatsAnswer, chatsForms, { ...nowhere, result: chatsResult(broadcast) });
method("getOwnedBots", () => [], U(() => ({ _: "bots.getAdminedBots" })), (_q, x) => structuredClone(x.a.answer ?? theUsers()), [arg("answer", []), arg("answer", [theUsers()[1]])], { ...nowhere, result: (v: any, x: Exp) => expectIs((x.a.answer ?? theUsers()).map(aUser), v, x.a) });

// ---- link previews
const text = (x: Exp) => x.p.parseMode === "HTML" ? { message: "e.org", entities: [{ _: "messageEntityBold", offset: 0, length: 5 }] } : { message: "<b>e.org</b>" };
function preview(media: any): any {
  if (media._ !== "messageMediaWebPage") return null;
  const w = media.webpage, base = { id: String(w.id), url: w.url, mediaSize: media.force_large_media ? "large" : "small", isAboveText: false };
  if (w._ === "webPagePending") return { ...base, type: "loading", date: w.date };
  if (w._ === "webPageEmpty") return { ...base, type: "notLoaded" };
  const size = { width: w.embed_width ?? 0, height: w.embed_height ?? 0, duration: w.duration ?? 0 };
  const photo = (p: any) => p ? { fileSize: 4 } : undefined;
  if (w.type === "video" || w.type === "audio") {
    const [Kind, kind] = w.type === "video" ? ["Video", "video"] : ["Audio", "audio"];
    if (w.embed_type === "iframe") return { ...base, ...size, type: `embedded${Kind}`, embedUrl: w.embed_url ?? "", thumbnail: w.type === "video" ? photo(w.photo) : undefined };
    if (w.document) return { ...base, type: kind, [kind]: { fileSize: Number(w.document.size) }, startTimestamp: w.type === "video" ? Number(new URL(w.url).searchParams.get("t")) || undefined : undefined };
    if (w.embed_url) return { ...base, ...size, type: `external${Kind}`, embedUrl: w.embed_url, mimeType: w.embed_type ?? "" };
    if (w.photo) return { ...base, type: "photo", photo: photo(w.photo) };
  }
  return { ...base, type: "unknown" };
}
pending.push((extra) => {
  const pages: any[] = [];
  for (const type of [undefined, "video", "audio", "article"]) {
    for (const embed of [{}, { embed_url: "https://e.org/v", embed_type: "iframe" }, { embed_url: "https://e.org/v", embed_type: "video/mp4" }, { embed_url: "https://e.org/v", embed_type: "iframe", embed_width: 3, embed_height: 4, duration: 6 }]) {
      for (const doc of [undefined, gen.make("document")]) for (const photo of [undefined, gen.make("photo")]) for (const url of ["https://e.org/x", "https://e.org/x?t=5"]) {
        pages.push({ ...gen.make("webPage"), ...embed, ...(doc ? { document: doc } : {}), ...(photo ? { photo } : {}), ...(type ? { type } : {}), url });
      }
    }
  }
  for (const p of pages) if (p.photo) p.photo = { ...p.photo, sizes: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 4 }] };
  const medias = [
    { _: "messageMediaEmpty" },
    { _: "messageMediaWebPage", webpage: { _: "webPageEmpty", id: 5n } },
    { _: "messageMediaWebPage", webpage: { _: "webPageEmpty", id: 5n, url: "https://e.org" } },
    { _: "messageMediaWebPage", webpage: { _: "webPagePending", id: 6n, date: 7 } },
    { _: "messageMediaWebPage", webpage: { _: "webPagePending", id: 6n, date: 7, url: "https://e.org" }, force_large_media: true },
    ...pages.flatMap((webpage) => [{}, { force_large_media: true }, { force_small_media: true }].map((m) => ({ _: "messageMediaWebPage", webpage, ...m }))),
  ];
  void extra;
  method("getLinkPreview", (x) => ["<b>e.org</b>", x.p], U((x) => ({ _: "messages.getWebPagePreview", ...text(x) })), (_q, x) => ({ _: "messages.webPagePreview", media: structuredClone(x.a.media ?? medias[0]), chats: [], users: [] }), [o("parseMode", "HTML"), o("entities", [{ type: "italic", offset: 1, length: 2 }], put({ entities: [{ _: "messageEntityItalic", offset: 1, length: 2 }] })), ...medias.slice(1).map((m) => arg("media", m))], {
    ...nowhere,
    finish: (x) => void (x.p.parseMode && x.p.entities && (x.skip = true), x.req = { ...text(x), ...x.req, ...(x.p.parseMode ? text(x) : {}) }),
    result: (v: any, x: Exp) => expectIs(preview(x.a.media ?? medias[0]), v, x.a.media),
  });
});

// ---- privacy
const KEYS: [string, string][] = [["phoneNumber", "PhoneNumber"], ["bio", "About"], ["birthday", "Birthday"], ["profilePhoto", "ProfilePhoto"], ["forwards", "Forwards"], ["invitation", "ChatInvite"], ["findByPhoneNumber", "AddedByPhone"], ["voiceMessage", "VoiceMessages"], ["paidMessageException", "NoPaidMessages"], ["peerToPeerCall", "PhoneP2P"], ["gifts", "StarGiftsAutoSave"], ["savedMusic", "SavedMusic"], ["phoneCall", "PhoneCall"], ["lastSeen", "StatusTimestamp"]];
const known = [12, 14];
function rule(r: any): any {
  const isAllowed = !/Disallow/.test(r._), what = r._.replace(/privacyValue(Dis)?[aA]llow/, "");
  const who = (l: bigint[]) => l.filter((u) => known.includes(Number(u))).map((u) => ({ id: Number(u) }));
  switch (what) {
    case "Contacts":
      return { type: "contacts", isAllowed };
    case "All":
      return { type: "everybody", isAllowed };
    case "Users":
      return { type: "users", isAllowed, users: who(r.users) };
    case "ChatParticipants":
      return { type: "chatMembers", isAllowed, chats: r.chats.filter((c: bigint) => c === 50n || c === 9n).map((c: bigint) => ({ id: c === 50n ? -1000000000050 : -9 })) };
    case "CloseFriends":
      return { type: "closeFriends" };
    case "Premium":
      return { type: "premium" };
    case "Bots":
      return { type: "bots", isAllowed };
  }
}
asks("getPrivacySetting", (x) => [x.a.key ?? "bio"], U(() => ({ _: "account.getPrivacy", key: { _: "inputPrivacyKeyAbout" } })), "account.PrivacyRules", 4, (a) => a.rules.map(rule), KEYS.map(([k, t]) => arg("key", k, put({ key: { _: "inputPrivacyKey" + t } }))));

// ---- settings of chats
asks("getChatSettings", chatOnly, U(peer({ _: "messages.getPeerSettings" })), "messages.PeerSettings", 3, ({ settings: s, users }) => ({
  canReport: is1(s.report_spam),
  canAddToContacts: is1(s.add_contact),
  canBlock: is1(s.block_contact),
  canShare: is1(s.share_contact),
  isContactsException: is1(s.need_contacts_exception),
  canReportLocation: is1(s.report_geo),
  canUnarchive: is1(s.autoarchived),
  canInviteMembers: is1(s.invite_members),
  channelJoinRequest: is1(s.request_chat_broadcast),
  isBusinessBotPaused: is1(s.business_bot_paused),
  businessBotCanReply: is1(s.business_bot_can_reply),
  distance: s.geo_distance,
  joinRequestChatTitle: s.request_chat_title,
  joinRequestDate: s.request_chat_date || undefined,
  businessBotUrl: s.business_bot_manage_url,
  businessBot: s.business_bot_id === 14n && users.some((u: any) => u.id === 14n) ? { id: 14 } : undefined,
  messagePrice: s.charge_paid_message_stars === undefined ? undefined : Number(s.charge_paid_message_stars),
  registrationMonth: s.registration_month,
  phoneCountry: s.phone_country,
  nameChangeDate: s.name_change_date || undefined,
  photoChangeDate: s.photo_change_date || undefined,
}), [], { chats: [ALICE, GROUP, CHANNEL] });
const sound = (s: any) => !s ? undefined : s._ === "notificationSoundDefault" ? { type: "default" } : s._ === "notificationSoundNone" ? { type: "none" } : s._ === "notificationSoundLocal" ? { type: "local", title: s.title, data: s.data } : { type: "ringtone", id: String(s.id) };
asks("getNotificationSettings", chatOnly, U((x) => ({ _: "account.getNotifySettings", peer: { _: "inputNotifyPeer", peer: x.chat.input } })), "PeerNotifySettings", 3, (s) => ({
  showsPreviews: s.show_previews,
  isSilent: s.silent,
  muteUntil: s.mute_until,
  iosSound: sound(s.ios_sound),
  androidSound: sound(s.android_sound),
  otherPlatformsSound: sound(s.other_sound),
  mutesStories: s.stories_muted,
  hidesStories: s.stories_hide_sender,
  iosStorySound: sound(s.stories_ios_sound),
  androidStorySound: sound(s.stories_android_sound),
  otherPlatformsStorySound: sound(s.stories_other_sound),
}), [], { chats: [ALICE, GROUP, CHANNEL] });
asks("getRecentEmojiStatuses", () => [], U(() => ({ _: "account.getRecentEmojiStatuses", hash: 0n })), "account.EmojiStatuses", 4, (a) =>
  a.statuses.map((s: any) => s._ === "emojiStatus" ? { type: "customEmoji", customEmojiId: String(s.document_id), until: s.until } : { type: "gift", giftId: String(s.collectible_id), customEmojiId: String(s.document_id), title: s.title, slug: s.slug, until: s.until }));
const b64 = (b: Uint8Array) => btoa(String.fromCharCode(...b)).replaceAll("+", "-").replaceAll("/", "_").replaceAll("=", "");
const reported = (r: any) => r._ === "reportResultReported" ? { type: "reported" } : r._ === "reportResultAddComment" ? { type: "textRequired", isOptional: is1(r.optional), option: b64(r.option) } : { type: "optionRequired", title: r.title, options: r.options.map((v: any) => ({ text: v.text, option: b64(v.option) })) };
asks("reportEphemeralMessage", (x) => [x.chat.id, x.a.id ?? 5, x.p], U(peer({ _: "ephemeral.reportMessage", id: 5, option: new Uint8Array(), message: "" })), "ReportResult", 4, reported, [o("text", "t", put({ message: "t" })), o("option", "_-8", put({ option: new Uint8Array([255, 239]) })), arg("id", 9, put({ id: 9 }))], { chats: [GROUP, CHANNEL] });
asks("summarizeText", (x) => [x.chat.id, 5, x.p], U(peer({ _: "messages.summarizeText", id: 5 })), "TextWithEntities", 3, (a) => ({ text: a.text, entities: a.entities.filter((e: any) => !/Unknown$|Diff/.test(e._)).map((e: any) => ({ offset: e.offset, length: e.length })) }), [o("languageCode", "de", put({ to_lang: "de" }))], { chats: [ALICE, GROUP, CHANNEL] });
const week = { timezone: "Europe/Berlin", intervals: [{ startsAt: 540 * 60_000, endsAt: 1020 * 60_000 }, { startsAt: 1980 * 60_000, endsAt: 2460 * 60_000 }] };
method("setWorkingHours", (x) => [x.p], U(() => ({ _: "account.updateBusinessWorkHours" })), yes, [
  o("workingHours", week, put({ business_work_hours: { _: "businessWorkHours", timezone_id: "Europe/Berlin", weekly_open: [{ _: "businessWeeklyOpen", start_minute: 540, end_minute: 1020 }, { _: "businessWeeklyOpen", start_minute: 1980, end_minute: 2460 }] } })),
  o("workingHours", { timezone: "UTC", intervals: [] }, put({ business_work_hours: { _: "businessWorkHours", timezone_id: "UTC", weekly_open: [] } })),
], nowhere);

// ---- messages by links
const LINKS: [string, any, any?][] = [
  ["https://t.me/c/50/7", { _: "channels.getMessages", channel: "c", id: 7 }],
  ["t.me/c/50/7", { id: 7 }],
  ["http://t.me/c/50/3/7", { id: 7 }],
  ["https://t.me/c/50/7?single", { id: 7 }],
  ["https://t.me/fifty/7", { id: 7 }],
  ["t.me/fifty/3/8", { id: 8 }],
  ["ftp://t.me/c/50/7", null],
  ["https://example.org/c/50/7", null],
  ["https://t.me/c/50", null],
  ["https://t.me/fifty", null],
  ["https://t.me/fifty/0", null],
  ["https://t.me/fifty/x", null],
  ["https://t.me/fifty/1.5", null],
  ["https://t.me/fifty/-7", null],
  ["https://t.me/c/50/0x7", null],
  ["https://t.me/c/x/7", null],
  ["https://t.me/c/50/1/2/3", null],
  ["https://t.me/fifty/1/2/3", null],
  ["https://t.me/5/7", null],
  ["", null],
];
for (const [link, at] of LINKS) {
  method(`resolveMessageLink ${link}`, () => [link], (x) => (at ?? bad(x), null), () => undefined, [], {
    chats: [CHANNEL],
    known: [channel(50n, { username: "fifty" })],
    other: (q) => q._ === "channels.getMessages" ? { _: "messages.channelMessages", pts: 1, count: 1, messages: q.id.map((i: any) => ({ _: "message", id: i.id, peer_id: CHANNEL.peer, from_id: { _: "peerUser", user_id: 11n }, date: 1, message: `m${i.id}` })), topics: [], chats: [], users: [] } : undefined,
    result: (v: any) => at ? expectIs({ id: at.id, chat: { id: -1000000000050 }, text: `m${at.id}` }, v, link) : undefined,
  });
}

// ---- video chats
const CALL = { _: "inputGroupCall", id: 70n, access_hash: -71n };
const call = (more: any = {}) => ({ _: "groupCall", id: 70n, access_hash: -71n, participants_count: 3, unmuted_video_limit: 1, version: 1, ...more });
const videoChat = (c: any): any =>
  c._ === "groupCallDiscarded" ? { type: "ended", id: String(c.id), duration: c.duration } : {
    type: c.schedule_date ? "scheduled" : "active",
    id: String(c.id),
    title: c.title ?? "",
    isLiveStream: is1(c.rtmp_stream),
    participantCount: c.participants_count,
    ...(c.schedule_date ? { scheduledFor: c.schedule_date } : { isRecording: is1(c.record_video_active) }),
  };
const CALLS = [call(), call({ title: "T" }), call({ rtmp_stream: true, stream_dc_id: 4 }), call({ schedule_date: 99 }), call({ schedule_date: 99, title: "T", rtmp_stream: true }), call({ record_video_active: true, participants_count: 0 })];
const startOpts: Opt[] = [o("title", "T", put({ title: "T" })), ...flags([["isLiveStream", "rtmp_stream"]]), ...CALLS.slice(1).map((c) => arg("call", c))];
for (const at of [undefined, 12345]) {
  const name = at ? "scheduleVideoChat" : "startVideoChat";
  const args = (x: Exp) => at ? [x.chat.id, at, x.p] : [x.chat.id, x.p];
  const req = U((x) => (x.chat === ALICE && bad(x), { _: "phone.createGroupCall", peer: x.chat.input, random_id: "random", ...(at ? { schedule_date: at } : {}) }));
  const answer = (_q: any, x: Exp) => ({ ...nothing([{ _: "updateGroupCall", peer: x.chat.peer, call: structuredClone(x.a.call ?? CALLS[0]) }]), users: [user(12n)] });
  method(name, args, req, answer, startOpts, { result: (v: any, x: Exp) => expectIs(videoChat(x.a.call ?? CALLS[0]), v, x.a) });
  method(`${name}, which is known then`, args, req, answer, startOpts, {
    call: async (c, x) => {
      const v = await c[name](...args(x));
      await settle();
      return [v, await c.getVideoChat(v.id)];
    },
    result: (v: any, x: Exp) => expectIs([videoChat(x.a.call ?? CALLS[0]), videoChat(x.a.call ?? CALLS[0])], v, x.a),
  });
}
/** How the video chat has come to be known. */
const STATES: Record<string, { access: boolean; call: boolean; push?: any[][]; chat?: boolean }> = {
  told: { access: true, call: true, push: [[call()]] },
  unknown: { access: false, call: false },
  ended: { access: false, call: false, push: [[call()], [{ _: "groupCallDiscarded", id: 70n, access_hash: -71n, duration: 5 }]] },
  "another ended": { access: true, call: true, push: [[call()], [{ ...call(), id: 80n, access_hash: 81n }], [{ _: "groupCallDiscarded", id: 80n, access_hash: 81n, duration: 5 }]] },
  "by the chat": { access: true, call: false, chat: true },
  "by the chat, then told": { access: true, call: true, chat: true, push: [[call({ title: "later" })]] },
  "changed": { access: true, call: true, push: [[call()], [call({ title: "later", access_hash: -71n })]] },
};
const states: Opt[] = Object.keys(STATES).slice(1).map((s) => arg("state", s));
const stateOf = (x: Exp) => STATES[x.a.state ?? "told"];
const full = { _: "channelFull", id: 50n, about: "", read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, chat_photo: { _: "photoEmpty", id: 0n }, notify_settings: { _: "peerNotifySettings" }, bot_info: [], pts: 1, call: CALL };
const inState = (form: (x: Exp) => any = () => ({})): Partial<Spec> => ({
  chats: [CHANNEL],
  unready: (q) => q._ === "channels.getFullChannel" ? { _: "messages.chatFull", full_chat: full, chats: [], users: [] } : undefined,
  prepare: async (app: App, x: Exp) => {
    const s = stateOf(x);
    if (s.chat) {
      app.client.getChat(CHANNEL.id).catch(() => {});
      await settle();
    }
    for (const [c] of s.push ?? []) {
      app.push({ ...nothing([{ _: "updateGroupCall", peer: CHANNEL.peer, call: c._ === "groupCall" && c.id === 70n ? { ...c, ...form(x) } : c }]), date: 2 });
      await settle();
    }
  },
});
const withCall = (req: any): Req => U((x) => (stateOf(x).access || bad(x), { ...req, call: CALL }));
const connection = () => nothing([{ _: "updateGroupCallConnection", params: { _: "dataJSON", data: '{"a":1}' } }]);
method("joinVideoChat", (x) => ["70", "{}", x.p], withCall({ _: "phone.joinGroupCall", join_as: { _: "inputPeerSelf" }, params: { _: "dataJSON", data: "{}" } }), connection, [
  ...states,
  o("joinAs", GROUP.id, put({ join_as: GROUP.input })),
  o("joinAs", BOB.id, put({ join_as: BOB.input })),
  o("inviteHash", "h", put({ invite_hash: "h" })),
  o("isAudioEnabled", false, put({ muted: true })),
  o("isAudioEnabled", true),
  o("isVideoEnabled", false, put({ video_stopped: true })),
  o("isVideoEnabled", true),
], { ...inState(), result: is('{"a":1}') });
method("leaveVideoChat", () => ["70"], withCall({ _: "phone.leaveGroupCall", source: 0 }), done, states, inState());
method("joinLiveStream", () => ["70"], withCall({ _: "phone.joinGroupCall", join_as: { _: "inputPeerSelf" }, params: { _: "dataJSON", data: "a stream" } }), (q) => {
  const d = JSON.parse(q.params.data);
  if (Number.isInteger(d.ssrc) && d.ssrc !== 0) q.params.data = "a stream";
  return connection();
}, states, inState());
const forms70: Opt[] = [...CALLS.slice(1).map((c) => arg("form", c))];
const formOf = (x: Exp) => x.a.form ?? {};
const present = (x: Exp) => ({ ...call(), ...((stateOf(x).push ?? []).filter(([c]) => c.id === 70n).at(-1)?.[0] ?? {}), ...formOf(x) });
const asked = (x: Exp) => stateOf(x).access && !stateOf(x).call;
const getCall = (q: any, x: Exp) => q._ === "phone.getGroupCall" ? { _: "phone.groupCall", call: { ...call({ title: "asked" }), ...formOf(x) }, participants: [], participants_next_offset: "", chats: [], users: [] } : undefined;
method("getVideoChat", () => ["70"], U((x) => (stateOf(x).access || bad(x), asked(x) ? { _: "phone.getGroupCall", call: CALL, limit: 1 } : null)), (q, x) => getCall(q, x), [...states, ...forms70], {
  ...inState(formOf),
  result: (v: any, x: Exp) => expectIs(videoChat(asked(x) ? { ...call({ title: "asked" }), ...formOf(x) } : present(x)), v, x.a),
});
const STREAM = { rtmp_stream: true, stream_dc_id: 4 };
const streams: Opt[] = [arg("form", { rtmp_stream: undefined, stream_dc_id: 4 }, bad)];
const inStream: Partial<Spec> = {
  params: async () => {
    const storage = new StorageMemory();
    for (const b of ["4", "4_media"]) await storage.branch(b).set(["auth"], { apiId: 5, authKey: testKey(), dc: "4", isBot: false, userId: Number(SELF) });
    return { storage };
  },
  ...inState((x) => x.a.form ?? STREAM),
  ignore: (q) => q._ === "upload.getFile" && q.offset > 0n || q._ === "phone.getGroupCall" || /^auth\.(exportAuthorization|importAuthorization)$/.test(q._),
  other: (q, x) => q._ === "upload.getFile" ? { _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: new Uint8Array() } : q._ === "auth.exportAuthorization" ? { _: "auth.exportedAuthorization", id: 1n, bytes: new Uint8Array([1]) } : q._ === "auth.importAuthorization" ? { _: "auth.authorization", user: selfUser() } : q._ === "phone.getGroupCall" ? { _: "phone.groupCall", call: { ...call(), ...(x.a.form ?? STREAM) }, participants: [], participants_next_offset: "", chats: [], users: [] } : undefined,
};
const there = (s: Server) => check(s.dc !== undefined && /^4(-|$)/.test(String(s.dc)), () => `the data center ${s.dc} is asked instead of 4`, "where live streams come from");
method("getLiveStreamChannels", () => ["70"], withCall({ _: "phone.getGroupCallStreamChannels" }), (_q, x) => ({ _: "phone.groupCallStreamChannels", channels: structuredClone(x.a.list ?? [{ _: "groupCallStreamChannel", channel: 1, scale: 2, last_timestamp_ms: 1700000000123n }]) }), [...states, ...streams, arg("list", []), arg("list", [{ _: "groupCallStreamChannel", channel: 1, scale: 0, last_timestamp_ms: 0n }, { _: "groupCallStreamChannel", channel: 2, scale: 3, last_timestamp_ms: 9n }])], {
  ...inStream,
  result: (v: any, x: Exp, s: Server) => {
    there(s);
    expectIs((x.a.list ?? [{ channel: 1, scale: 2, last_timestamp_ms: 1700000000123n }]).map((c: any) => ({ id: c.channel, scale: c.scale, timestamp: Number(c.last_timestamp_ms) })), v, x.a);
  },
});
const PIECE = new Uint8Array(700).map((_, i) => i % 251);
method("downloadLiveStreamSegment", (x) => ["70", 3, 1, x.a.at ?? 1700000000123, x.p], U((x) => (stateOf(x).access || bad(x), { _: "upload.getFile", location: { _: "inputGroupCallStream", call: CALL, scale: 1, time_ms: 1700000000123n, video_channel: 3, video_quality: 0 }, offset: 0n, limit: 1048576 })), (q) => ({ _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: q.offset > 0n ? new Uint8Array() : PIECE }), [
  ...states,
  ...streams,
  arg("at", 5000, (x) => void (x.req.location.time_ms = 5000n)),
  ...["low", "medium", "high"].map((q, i) => o("quality", q, (x) => void (x.req.location.video_quality = i))),
  o("quality", "best", bad),
  o("chunkSize", 4096, put({ limit: 4096 })),
], {
  ...inStream,
  result: (v: any, _x: Exp, s: Server) => {
    there(s);
    check(v.length === PIECE.length && PIECE.every((b, i) => v[i] === b), () => `the segment has ${v.length} bytes`, "live stream segments");
  },
});

// ---- communities
const community = (more: any = {}) => ({ _: "community", id: 90n, access_hash: 90001n, title: "C", photo: { _: "chatPhotoEmpty" }, date: 1, ...more });
const theCommunity = { _: "inputChannel", channel_id: 90n, access_hash: 90001n };
const COMMUNITIES = [community(), community({ creator: true, left: true }), community({ collapsed_in_dialogs: true, admin_rights: { _: "chatAdminRights", ban_users: true }, default_banned_rights: { _: "chatBannedRights", send_polls: true, until_date: 0 } })];
const FULLS = [{}, { about: "about", admins_count: 4 }, { linked_peers: [{ _: "communityPeer", peer: CHANNEL.peer, visible: true }, { _: "communityPeer", peer: GROUP.peer, can_view_history: true }] }];
const communityFull = (more: any) => ({ _: "communityFull", id: 90n, about: "", chat_photo: { _: "photoEmpty", id: 0n }, linked_peers: [], ...more });
const base = (c: any) => ({ id: 90, name: "C", isCreator: is1(c.creator), isLeft: is1(c.left), isShownAsOneChat: is1(c.collapsed_in_dialogs), administratorRights: c.admin_rights ? { canRestrictMembers: true, canPinMessages: false } : undefined, defaultPermissions: c.default_banned_rights ? { canSendPolls: false, canSendMessages: true } : undefined });
for (const c of COMMUNITIES) {
  const more: Partial<Spec> = { chats: [ALICE], known: [c] };
  method(`getCommunityP of ${Object.keys(c).slice(6)}`, () => [90], U(() => null), () => undefined, [], { ...more, result: (v: any) => expectIs(base(c), v, c) });
  method(`getCommunity of ${Object.keys(c).slice(6)}`, () => [90], () => ({ _: "channels.getFullChannel", channel: theCommunity }), (_q, x) => ({ _: "messages.chatFull", full_chat: communityFull(x.a.full ?? {}), chats: [], users: [] }), FULLS.slice(1).map((f) => arg("full", f)), {
    ...more,
    result: (v: any, x: Exp) => {
      const f: any = x.a.full ?? {};
      expectIs({ ...base(c), description: f.about, adminCount: f.admins_count ?? 0, chats: (f.linked_peers ?? []).map((p: any) => ({ isVisible: is1(p.visible), isHistoryVisible: is1(p.can_view_history), chat: { id: p.peer._ === "peerChat" ? -9 : -1000000000050 } })) }, v, f);
    },
  });
}
for (const [w, known] of [["an unknown community", []], ["a forbidden community", [{ _: "communityForbidden", id: 90n, access_hash: 90001n, title: "C" }]]] as [string, any[]][]) {
  for (const m of ["getCommunity", "getCommunityP"]) {
    method(`${m} of ${w}`, () => [90], (x) => (x.skip = x.bot, null), () => undefined, [], {
      chats: [ALICE],
      known,
      call: (c) => c[m](90).then((v: any) => ({ v }), (e: any) => ({ e: e.constructor.name })),
      result: (v: any) => check(/^(Access|Input)Error$/.test(v.e), () => `${m} of ${w} gives ${JSON.stringify(v)}`, "communities that cannot be seen"),
    });
  }
}
// ---- sticker sets
const setOf = (more: any = {}) => ({ _: "messages.stickerSet", set: { _: "stickerSet", id: 60n, access_hash: 61n, title: "T", short_name: "slug", count: 1, hash: 0, ...more }, packs: [], keywords: [], documents: [STICKER] });
const SETS = [{}, { emojis: true }, { masks: true }, { text_color: true, emojis: true }, { channel_emoji_status: true }, { creator: true }, { official: true }, { archived: true }, { installed_date: 88 }, { thumbs: [{ _: "photoSize", type: "s", w: 3, h: 4, size: 5 }], thumb_dc_id: 2, thumb_version: 6 }];
for (const [name, args, stickerset] of [["getDiceStickerSet", ["🎲"], { _: "inputStickerSetDice", emoticon: "🎲" }], ["getStickerSet", ["slug"], { _: "inputStickerSetShortName", short_name: "slug" }]] as [string, any[], any][]) {
  method(name, () => args, () => null, () => undefined, SETS.slice(1).map((s) => arg("set", s)), {
    ...nowhere,
    other: (q, x, s) => q._ === "messages.getStickerSet" ? (s.made.push(q), setOf(x.a.set)) : undefined,
    result: (v: any, x: Exp, s: Server) => {
      const m: any = x.a.set ?? {};
      check(s.made.length === 1 && JSON.stringify(clean(s.made[0].stickerset)) === JSON.stringify(clean(stickerset)), () => `the sticker set is asked for by ${JSON.stringify(clean(s.made))}`, "sticker sets");
      expectIs({ id: "60", name: "slug", title: "T", type: m.emojis ? "customEmoji" : m.masks ? "mask" : "regular", isAdaptive: is1(m.text_color), canSetAsChannelStatus: is1(m.channel_emoji_status), isCreator: is1(m.creator), isOfficial: is1(m.official), isArchived: is1(m.archived), addedAt: m.installed_date, stickers: [{ ...sticker(STICKER), setName: "slug" }], thumbnails: m.thumbs ? [{ width: 3, height: 4, fileSize: 5 }] : [] }, v, m);
    },
  });
}
// ---- what was done in a chat
const RIGHTS: [string, string[], string?][] = [
  ["canSendMessages", ["send_plain", "send_messages"]],
  ["canSendAudio", ["send_audios", "send_media"]],
  ["canSendDocuments", ["send_docs", "send_media"]],
  ["canSendPhotos", ["send_photos", "send_media"]],
  ["canSendVideos", ["send_videos", "send_media"]],
  ["canSendVideoNotes", ["send_roundvideos", "send_media"]],
  ["canSendVoice", ["send_voices", "send_media"]],
  ["canSendPolls", ["send_polls"]],
  ["canSendStickers", ["send_stickers"]],
  ["canSendAnimations", ["send_gifs"]],
  ["canSendGames", ["send_games"]],
  ["canSendInlineBotResults", ["send_inline"]],
  ["canAddWebPagePreviews", ["embed_links"]],
  ["canMakeReactions", ["send_reactions"]],
  ["canEditMemberTag", ["edit_rank"]],
  ["canChangeInfo", ["change_info"]],
  ["canInviteUsers", ["invite_users"]],
  ["canPinMessages", ["pin_messages"]],
  ["canManageTopics", ["manage_topics"]],
];
// what may be left out when it is not so
const soft = new Set(["canSendAnimations", "canSendGames", "canSendInlineBotResults", "canAddWebPagePreviews", "canMakeReactions", "canEditMemberTag", "canChangeInfo", "canInviteUsers", "canPinMessages", "canManageTopics"]);
const banned = (f: string[]) => ({ _: "chatBannedRights", until_date: 88, ...Object.fromEntries(f.map((v) => [v, true])) });
const allowed = (f: string[]) => Object.fromEntries(RIGHTS.map(([k, w]) => [k, w.some((v) => f.includes(v)) ? soft.has(k) ? undefined : false : true]));
const said = (id: number, text: string) => ({ _: "message", id, peer_id: { _: "peerChannel", channel_id: 50n }, from_id: { _: "peerUser", user_id: 12n }, date: 70 + id, message: text });
const read = (id: number, text: string) => ({ id, text, date: 70 + id, chat: { id: -1000000000050 }, from: { id: 12 } });
const ADMIN = { _: "chatAdminRights", change_info: true, ban_users: true };
/** Members of a chat: as the server tells, and as they are given. */
const MEMBERS: [string, any, any][] = [
  ["member", { _: "channelParticipant", user_id: 12n, date: 5 }, { status: "member", member: { id: 12 } }],
  ["oneself", { _: "channelParticipantSelf", user_id: 12n, inviter_id: 14n, date: 5, subscription_until_date: 77, rank: "r" }, { status: "member", member: { id: 12 }, until: 77, tag: "r" }],
  ["creator", { _: "channelParticipantCreator", user_id: 12n, admin_rights: ADMIN, rank: "boss" }, { status: "creator", member: { id: 12 }, isAnonymous: false, title: "boss" }],
  ["anonymous", { _: "channelParticipantCreator", user_id: 12n, admin_rights: { ...ADMIN, anonymous: true } }, { status: "creator", isAnonymous: true, title: undefined }],
  ["administrator", { _: "channelParticipantAdmin", user_id: 12n, promoted_by: 14n, date: 5, admin_rights: ADMIN, rank: "r" }, { status: "administrator", member: { id: 12 }, title: "r", rights: { canChangeInfo: true, canRestrictMembers: true } }],
  ["banned", { _: "channelParticipantBanned", peer: { _: "peerUser", user_id: 12n }, kicked_by: 14n, date: 5, left: true, banned_rights: banned(["view_messages", "send_messages"]) }, { status: "banned", member: { id: 12 }, until: 88, rights: undefined }],
  ["banned channel", { _: "channelParticipantBanned", peer: { _: "peerChannel", channel_id: 50n }, kicked_by: 14n, date: 5, left: true, banned_rights: banned(["view_messages"]) }, { status: "banned", member: { id: -1000000000050 }, until: 88 }],
  ...["send_polls", "send_media", "send_messages"].map((f): [string, any, any] => [`without ${f}`, { _: "channelParticipantBanned", peer: { _: "peerUser", user_id: 12n }, kicked_by: 14n, date: 5, banned_rights: banned([f]), rank: "r" }, { status: "restricted", member: { id: 12 }, isMember: true, until: 88, tag: "r", rights: allowed([f]) }]),
  ["restricted and gone", { _: "channelParticipantBanned", peer: { _: "peerUser", user_id: 12n }, left: true, kicked_by: 14n, date: 5, banned_rights: banned(["send_polls"]) }, { status: "restricted", isMember: false, tag: undefined }],
  ["gone", { _: "channelParticipantLeft", peer: { _: "peerUser", user_id: 12n } }, { status: "left", member: { id: 12 } }],
  ["channel gone", { _: "channelParticipantLeft", peer: { _: "peerChannel", channel_id: 50n } }, { status: "left", member: { id: -1000000000050 } }],
];
const M_LINKS: [string, any, any][] = [
  ["plain", { _: "chatInviteExported", link: "https://t.me/+x", admin_id: 12n, date: 5 }, { inviteLink: "https://t.me/+x", creator: { id: 12 }, requiresApproval: false, isRevoked: false, title: undefined, expiresAt: undefined, limit: undefined, pendingJoinRequestCount: undefined, subscriptionPrice: undefined }],
  ["full", { _: "chatInviteExported", link: "https://t.me/+y", admin_id: 14n, date: 5, expire_date: 99, usage_limit: 4, usage: 1, requested: 2, title: "t", request_needed: true, revoked: true, subscription_pricing: { _: "starsSubscriptionPricing", period: 7, amount: 30n } }, { inviteLink: "https://t.me/+y", creator: { id: 14 }, requiresApproval: true, isRevoked: true, title: "t", expiresAt: 99, limit: 4, pendingJoinRequestCount: 2, subscriptionPrice: 30 }],
  ["public", { _: "chatInvitePublicJoinRequests" }, undefined],
];
const topicOf = (more: any) => ({ _: "forumTopic", id: 21, date: 22, peer: { _: "peerChannel", channel_id: 50n }, title: "topic", icon_color: 23, top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, from_id: { _: "peerUser", user_id: 12n }, notify_settings: { _: "peerNotifySettings" }, ...more });
const aTopic = { type: "active", id: 21, date: 22, creator: { id: 12 }, isGeneral: false, isClosed: false, isHidden: false, name: "topic", color: 23, customEmojiId: undefined };
const TOPICS: [string, any, any][] = [
  ["plain", topicOf({}), aTopic],
  ["closed", topicOf({ closed: true, icon_emoji_id: 24n }), { ...aTopic, isClosed: true, customEmojiId: "24" }],
  ["general", topicOf({ id: 1, hidden: true }), { ...aTopic, id: 1, isGeneral: true, isHidden: true }],
  ["deleted", { _: "forumTopicDeleted", id: 21 }, { type: "deleted", id: 21 }],
];
const aPhoto = (id: bigint) => ({ _: "photo", id, access_hash: 3n, file_reference: REF, date: 4, sizes: [{ _: "photoSize", type: "m", w: 10 + Number(id), h: 6, size: 7 }], dc_id: 2 });
const PHOTOS: [string, any, any][] = [["one", aPhoto(1n), { width: 11, height: 6 }], ["another", aPhoto(2n), { width: 12, height: 6 }], ["none", { _: "photoEmpty", id: 0n }, undefined]];
const STICKERS: [string, any, any][] = [["none", { _: "inputStickerSetEmpty" }, undefined], ["named", { _: "inputStickerSetShortName", short_name: "s1" }, "s1"], ["another", { _: "inputStickerSetShortName", short_name: "s2" }, "s2"]];
const PLACES: [string, any, any][] = [
  ["none", { _: "channelLocationEmpty" }, undefined],
  ["known", { _: "channelLocation", geo_point: { _: "geoPoint", long: 2.5, lat: 1.5, access_hash: 1n, accuracy_radius: 3 }, address: "A" }, { address: "A", location: { latitude: 1.5, longitude: 2.5, horizontalAccuracy: 3 } }],
  ["unknown", { _: "channelLocation", geo_point: { _: "geoPointEmpty" }, address: "B" }, { address: "B", location: undefined }],
];
const ALLOWED: [string, any, any][] = [
  ["none", { _: "chatReactionsNone" }, { type: "none" }],
  ["all", { _: "chatReactionsAll" }, { type: "all" }],
  ["some", { _: "chatReactionsSome", reactions: [{ _: "reactionEmoji", emoticon: "👍" }, { _: "reactionCustomEmoji", document_id: 9n }, { _: "reactionPaid" }] }, { type: "some", reactions: [{ type: "emoji", emoji: "👍" }, { type: "custom", id: "9" }, { type: "paid" }] }],
];
const LISTS: [string, any, any][] = [["none", [], []], ["one", ["u"], ["u"]], ["two", ["v", "u"], ["v", "u"]]];
const word = (none: any): [string, any, any][] => [["none", "", none], ["one", "a", "a"], ["another", "b", "b"]];
const COUNTS: [string, any, any][] = [["none", 0, 0], ["some", 30, 30], ["more", 60, 60]];
const LINKED: [string, any, any][] = [["none", 0n, undefined], ["one", 50n, -1000000000050], ["another", 51n, -1000000000051]];
const GRANTS: [string, any, any][] = [[], ["send_polls"], ["send_media"], ["send_messages"], ...RIGHTS.map(([, w]) => [w[0]])].map((f): [string, any, any] => [f.join() || "all", banned(f), allowed(f)]);
const SAYS: [string, any, any][] = [["text", said(5, "m"), read(5, "m")], ["another", said(6, "n"), read(6, "n")]];

const ACTIONS: [string, any, any][] = [];
const acts = (name: string, action: any, want: any, label = "") => ACTIONS.push([`${name} ${label}`.trim(), { _: `channelAdminLogEventAction${name}`, ...action }, want]);
/** A change from one value to another, in all pairs. */
const changes = (name: string, type: string, field: string, list: [string, any, any][]) => {
  const [p, n] = field === "" ? ["prev_value", "new_value"] : [`prev_${field}`, `new_${field}`];
  list.forEach(([la, a, wa], i) => list.forEach(([lb, b, wb], j) => i !== j && (list.length < 7 || i === 0 || j === 0) && acts(name, { [p]: a, [n]: b }, { type, previous: wa, new: wb }, `${la}, then ${lb}`)));
};
const each = (name: string, type: string, from: string, to: string, list: [string, any, any][], more = {}, wants = {}) => list.forEach(([l, v, w]) => acts(name, { [from]: v, ...more }, { type, [to]: w, ...wants }, l));
const switches = (name: string, type: string, inverted = false) => both.forEach((v) => acts(name, { new_value: v }, { type, isEnabled: v !== inverted }, v ? "on" : "off"));
changes("ChangeTitle", "changeTitle", "", word(""));
changes("ChangeAbout", "changeDescription", "", word(""));
changes("ChangeUsername", "changeUsername", "", word(""));
changes("ChangePhoto", "changePhoto", "photo", PHOTOS);
switches("ToggleInvites", "toggleInvites");
switches("ToggleSignatures", "toggleSignatures");
switches("ToggleSignatureProfiles", "toggleSignatures");
each("UpdatePinned", "pinMessage", "message", "message", SAYS);
changes("EditMessage", "editMessage", "message", SAYS);
each("DeleteMessage", "deleteMessage", "message", "message", SAYS);
each("SendMessage", "sendMessage", "message", "message", SAYS);
each("StopPoll", "stopPoll", "message", "message", SAYS);
acts("ParticipantJoin", {}, { type: "join" });
acts("ParticipantLeave", {}, { type: "leave" });
each("ParticipantInvite", "invite", "participant", "chatMember", MEMBERS);
changes("ParticipantToggleBan", "toggleRestriction", "participant", MEMBERS.filter(([l]) => !/channel/.test(l)));
changes("ParticipantToggleBan", "toggleRestriction", "participant", MEMBERS.filter(([l]) => /channel/.test(l)));
changes("ParticipantToggleAdmin", "togglePromotion", "participant", MEMBERS.filter(([l]) => !/channel/.test(l)));
changes("ChangeStickerSet", "changeStickerSet", "stickerset", STICKERS);
changes("ChangeEmojiStickerSet", "setEmojiStickerSet", "stickerset", STICKERS);
// the server tells whether it is hidden
switches("TogglePreHistoryHidden", "toggleChatHistoryForNewMembers", true);
changes("DefaultBannedRights", "setDefaultPermissions", "banned_rights", GRANTS);
changes("ChangeLinkedChat", "changeDiscussionChat", "", LINKED);
changes("ChangeLocation", "changeLocation", "", PLACES);
changes("ToggleSlowMode", "setSlowMode", "", COUNTS);
acts("StartGroupCall", { call: { _: "inputGroupCall", id: 1n, access_hash: 2n } }, { type: "startVideoChat" });
acts("DiscardGroupCall", { call: { _: "inputGroupCall", id: 1n, access_hash: 2n } }, { type: "endVideoChat" });
const speaker = (p: any) => ({ _: "groupCallParticipant", peer: p, date: 5, source: 6 });
const SPEAKERS: [string, any, any][] = [["user", speaker({ _: "peerUser", user_id: 12n }), 12], ["channel", speaker({ _: "peerChannel", channel_id: 50n }), -1000000000050]];
each("ParticipantMute", "muteVideoChatParticipant", "participant", "participant", SPEAKERS);
each("ParticipantUnmute", "unmuteVideoChatParticipant", "participant", "participant", SPEAKERS);
each("ParticipantVolume", "setVideoChatParticipantVolume", "participant", "participant", SPEAKERS);
for (const v of both) acts("ToggleGroupCallSetting", { join_muted: v }, { type: "toggleVideoChatDefaultMuted", defaultMuted: v }, v ? "on" : "off");
each("ParticipantJoinByInvite", "joinByInvite", "invite", "inviteLink", M_LINKS, {}, { isViaList: false });
each("ParticipantJoinByInvite", "joinByInvite", "invite", "inviteLink", M_LINKS.slice(0, 1), { via_chatlist: true }, { isViaList: true });
each("ParticipantJoinByRequest", "joinByRequest", "invite", "inviteLink", M_LINKS, { approved_by: 14n }, { approvedBy: 14 });
each("ExportedInviteDelete", "deleteInviteLink", "invite", "inviteLink", M_LINKS);
each("ExportedInviteRevoke", "revokeInviteLink", "invite", "inviteLink", M_LINKS);
changes("ExportedInviteEdit", "editInviteLink", "invite", M_LINKS);
changes("ChangeHistoryTTL", "setHistoryTtl", "", COUNTS);
switches("ToggleNoForwards", "toggleContentProtection");
changes("ChangeAvailableReactions", "setAvailableReactions", "", ALLOWED);
changes("ChangeUsernames", "setUsernames", "", LISTS);
switches("ToggleForum", "toggleTopics");
each("CreateTopic", "createTopic", "topic", "topic", TOPICS);
changes("EditTopic", "editTopic", "topic", TOPICS);
each("DeleteTopic", "deleteTopic", "topic", "topic", TOPICS);
changes("PinTopic", "pinTopic", "topic", [["none", undefined, undefined], ...TOPICS]);
switches("ToggleAntiSpam", "toggleAntispam");
switches("ToggleAutotranslation", "toggleAutomaticTranslation");
for (const [la, a, wa] of word(undefined)) for (const [lb, b, wb] of word(undefined)) if (la !== lb) acts("ParticipantEditRank", { user_id: 12n, prev_rank: a, new_rank: b }, { type: "editChatMemberTag", userId: 12, previous: wa, new: wb }, `${la}, then ${lb}`);
acts("ParticipantSubExtend", { prev_participant: MEMBERS[0][1], new_participant: MEMBERS[1][1] }, { type: "unsupported" });

const entry = (i: number, [, action]: [string, any, any]) => ({ _: "channelAdminLogEvent", id: 5000000000000000001n + BigInt(i), date: 60 + i, user_id: i % 2 ? 14n : 12n, action });
const DONE: [string, [string, any, any][]][] = [["none", []], ...ACTIONS.map((a): [string, [string, any, any][]] => [a[0], [a]]), ["two", [ACTIONS[0], ACTIONS.at(-2)!]]];
method("getRecentActions", chatOnly, U((x) => (x.chat !== CHANNEL && (x.invalid = true), { _: "channels.getAdminLog", channel: inputChannel(CHANNEL), q: "", limit: 100, max_id: 0n, min_id: 0n, events_filter: { _: "channelAdminLogEventsFilter" } })), (_q, x) => ({ _: "channels.adminLogResults", events: (x.a.did ?? DONE[0])[1].map((a: any, i: number) => entry(i, a)), chats: theChats(), users: theUsers() }), DONE.slice(1).map((d) => arg("did", d)), {
  chats: [CHANNEL],
  result: (v: any, x: Exp) => {
    const did = (x.a.did ?? DONE[0])[1] as [string, any, any][];
    expectIs(did.map((a, i) => ({ id: String(5000000000000000001n + BigInt(i)), date: 60 + i, userId: i % 2 ? 14 : 12, action: a[2] })), v, did.map((a) => a[1]));
  },
});
// what a member is, and the members of a chat
for (const [name, args, req] of [
  ["getChatMembers", chatOnly, { _: "channels.getParticipants", filter: { _: "channelParticipantsRecent" }, offset: 0, limit: 100, hash: 0n }],
  ["getChatAdministrators", chatOnly, { _: "channels.getParticipants", filter: { _: "channelParticipantsAdmins" }, offset: 0, limit: 100, hash: 0n }],
  ["getChatMember", (x: Exp) => [x.chat.id, 12], { _: "channels.getParticipant", participant: BOB.input }],
] as [string, (x: Exp) => any[], any][]) {
  const one = name === "getChatMember";
  const groups = [...MEMBERS.map((m) => [m]), ...(one ? [] : [[], [MEMBERS[0], MEMBERS[5], MEMBERS[6]]])];
  method(name, args, () => ({ ...req, channel: inputChannel(CHANNEL) }), (_q, x) => {
    const l = (x.a.members ?? groups[0]).map((m: any) => m[1]);
    return one ? { _: "channels.channelParticipant", participant: l[0], chats: theChats(), users: theUsers() } : { _: "channels.channelParticipants", count: l.length, participants: l, chats: theChats(), users: theUsers() };
  }, groups.slice(1).map((g) => arg("members", g)), {
    chats: [CHANNEL],
    result: (v: any, x: Exp) => {
      const l = x.a.members ?? groups[0];
      const want = l.map((m: any) => m[2]);
      expectIs(one ? want[0] : want, v, l.map((m: any) => m[1]));
    },
  });
}
// ---- lists of what there is
const times = new Map<string, number>();
/** A method, and what it gives for each of these answers. */
function given(name: string, args: (x: Exp) => any[], req: Req, list: [string, any, any][], opts: Opt[] = [], more: Partial<Spec> = {}) {
  const n = times.get(name) ?? 0;
  times.set(name, n + 1);
  method(n ? `${name} ${n}` : name, args, req, (_q, x) => structuredClone((x.a.answer ?? list[0])[1]), [...list.slice(1).map((a) => arg("answer", a)), ...opts], {
    chats: [CHANNEL],
    ...more,
    result: (v: any, x: Exp) => {
      const a = x.a.answer ?? list[0];
      expectIs(a[2], v, a[1]);
    },
  });
}
const people = () => ({ chats: theChats(), users: theUsers() });
type Part = [string, any, any];
/** Lists of none, of each, and of two. */
const lists = (parts: Part[], make: (p: any[], n: string) => any, want: (p: any[]) => any): Part[] =>
  [[parts[0]], [], ...parts.slice(1).map((p) => [p]), [parts.at(-1)!, parts[0]]].map((l): Part => [l.map((p) => p[0]).join(), make(l.map((p) => p[1]), `${l.length}`), want(l.map((p) => p[2]))]);
/** Fields that make a difference, one by one. */
const each1 = (v: any, w: any, fields: Record<string, any>, wants: Record<string, any>): Part[] => [["plain", v, w], ...Object.keys(fields).map((f): Part => [f, { ...v, ...fields[f] }, { ...w, ...wants[f] }])];

// photos
for (const slice of both) {
  const parts = PHOTOS.slice(0, 2);
  const answers = lists(parts, (photos) => slice ? { _: "photos.photosSlice", count: 9, photos, users: [] } : { _: "photos.photos", photos, users: [] }, (p) => ({ photos: p, count: slice ? 9 : p.length }));
  given(`getProfilePhotos`, () => [12], () => ({ _: "photos.getUserPhotos", user_id: { ...BOB.input, _: "inputUser" }, offset: 0, max_id: 0n, limit: 100 }), answers, [], nowhere);
}
// who reacted
const reactionOf = (r: any): [any, any] => [r, r._ === "reactionEmoji" ? { type: "emoji", emoji: r.emoticon } : { type: "custom", id: String(r.document_id) }];
const [EMOJI, wEmoji] = reactionOf({ _: "reactionEmoji", emoticon: "👍" }), [CUSTOM, wCustom] = reactionOf({ _: "reactionCustomEmoji", document_id: 9n });
const reacted: Part[] = each1({ _: "messagePeerReaction", peer_id: { _: "peerUser", user_id: 12n }, date: 5, reaction: EMOJI }, { chat: { id: 12 }, date: 5, reaction: wEmoji, isBig: false, isCreator: false }, {
  big: { big: true },
  my: { my: true },
  other: { reaction: CUSTOM, peer_id: { _: "peerUser", user_id: 14n }, date: 6 },
  channel: { peer_id: { _: "peerChannel", channel_id: 50n } },
}, { big: { isBig: true }, my: { isCreator: true }, other: { reaction: wCustom, chat: { id: 14 }, date: 6 }, channel: { chat: { id: -1000000000050 } } });
for (const next of [undefined, "n"]) {
  given("getMessageReactions", (x) => [x.chat.id, 5], U(peer({ _: "messages.getMessageReactionsList", id: 5, limit: 100 })), lists(reacted, (reactions) => ({ _: "messages.messageReactionsList", count: 8, reactions, next_offset: next, ...people() }), (r) => ({ count: 8, nextOffset: next, reactions: r })));
}
// who voted
const voted: Part[] = [
  ["one", { _: "messagePeerVote", peer: { _: "peerUser", user_id: 12n }, option: new Uint8Array([49]), date: 5 }, { voter: { id: 12 }, optionIndexes: [1], votedAt: 5 }],
  ["two", { _: "messagePeerVoteMultiple", peer: { _: "peerChannel", channel_id: 50n }, options: [new Uint8Array([50]), new Uint8Array([48])], date: 6 }, { voter: { id: -1000000000050 }, optionIndexes: [2, 0], votedAt: 6 }],
];
for (const next of [undefined, "n"]) {
  given("getPollVoters", (x) => [x.chat.id, 5], U(peer({ _: "messages.getPollVotes", id: 5, limit: 100 })), lists(voted, (votes) => ({ _: "messages.votesList", count: 8, votes, next_offset: next, ...people() }), (v) => ({ count: 8, nextOffset: next, voters: v })));
}
given("getPollVoters", (x) => [x.chat.id, 5, { optionIndex: 2 }], U(peer({ _: "messages.getPollVotes", id: 5, limit: 100, option: new Uint8Array([50]) })), lists([["asked", { _: "messagePeerVoteInputOption", peer: { _: "peerUser", user_id: 14n }, date: 7 }, { voter: { id: 14 }, optionIndexes: [2], votedAt: 7 }]], (votes) => ({ _: "messages.votesList", count: 1, votes, ...people() }), (v) => ({ count: 1, voters: v })));
// saved chats
const kept = (id: number, p: any) => ({ ...said(id, `m${id}`), peer_id: { _: "peerUser", user_id: SELF }, saved_peer_id: p });
const keptRead = (id: number) => ({ id, text: `m${id}`, date: 70 + id });
const savedChat: Part[] = each1({ _: "savedDialog", peer: { _: "peerUser", user_id: 12n }, top_message: 5 }, { chat: { id: 12 }, lastMessage: keptRead(5), isPinned: false }, {
  pinned: { pinned: true },
  channel: { peer: { _: "peerChannel", channel_id: 50n }, top_message: 6 },
  group: { peer: { _: "peerChat", chat_id: 9n }, top_message: 7 },
}, { pinned: { isPinned: true }, channel: { chat: { id: -1000000000050 }, lastMessage: keptRead(6) }, group: { chat: { id: -9 }, lastMessage: keptRead(7) } });
for (const slice of both) {
  given("getSavedChats", () => [], () => ({ _: "messages.getSavedDialogs", hash: 0n, limit: 100, offset_date: 0, offset_id: 0, offset_peer: { _: "inputPeerEmpty" } }), lists(savedChat, (dialogs) => ({
    _: slice ? "messages.savedDialogsSlice" : "messages.savedDialogs",
    ...(slice ? { count: 9 } : {}),
    dialogs,
    messages: [kept(7, { _: "peerChat", chat_id: 9n }), kept(5, { _: "peerUser", user_id: 12n }), kept(6, { _: "peerChannel", channel_id: 50n })],
    chats: theChats(),
    users: [...theUsers(), selfUser()],
  }), (c) => ({ chats: c, total: slice ? 9 : c.length })), [], nowhere);
}
// topics
const topicMessages = [said(31, "x"), said(32, "y")];
const listedTopics: Part[] = [
  ...TOPICS.map(([l, v, w]): Part => [l, v, { topic: w, lastMessage: undefined }]),
  ["with a message", topicOf({ top_message: 32 }), { topic: aTopic, lastMessage: read(32, "y") }],
  ["with another message", topicOf({ top_message: 31 }), { topic: aTopic, lastMessage: read(31, "x") }],
];
for (const created of both) {
  const answers = lists(listedTopics, (topics) => ({ _: "messages.forumTopics", order_by_create_date: created || undefined, count: 8, topics, messages: topicMessages, ...people(), pts: 1 }), (t) => ({ items: t, count: 8, isOrderedByCreationDate: created }));
  given("getTopics", chatOnly, U(peer({ _: "messages.getForumTopics", offset_id: 0, offset_date: 0, offset_topic: 0, limit: 100 })), answers);
  given("getTopicsById", (x) => [x.chat.id, [21, 1]], U(peer({ _: "messages.getForumTopicsByID", topics: [21, 1] })), answers);
}
// invite links
given("getCreatedInviteLinks", chatOnly, U(peer({ _: "messages.getExportedChatInvites", admin_id: { _: "inputUserEmpty" }, limit: 100 })), lists(M_LINKS.slice(0, 2), (invites) => ({ _: "messages.exportedChatInvites", count: 9, invites, users: theUsers() }), (l) => l));
const joined: Part[] = [
  ["joined", { _: "messages.chatInviteJoinResultOk", updates: nothing() }, { type: "joined" }],
  ["a test", { _: "messages.chatInviteJoinResultWebView", bot_id: 14n, query_id: 5000000000000000001n, webview: { _: "webViewResultUrl", url: "u" }, users: theUsers() }, { type: "captcha", bot: { id: 14 }, queryId: "5000000000000000001" }],
];
given("joinChat", chatOnly, U(() => ({ _: "channels.joinChannel", channel: inputChannel(CHANNEL) })), joined);
given("joinChatByInviteLink", () => ["https://t.me/+abc"], U(() => ({ _: "messages.importChatInvite", hash: "abc" })), joined, [], nowhere);
const plainLink = { _: "chatInvite", title: "T", photo: { _: "photoEmpty", id: 0n }, participants_count: 5, color: 6 };
const plainWant = { type: "group", isPublic: false, isApprovalNeeded: false, isVerified: false, isScam: false, isFake: false, isAlreadySubscribed: false, title: "T", description: undefined, photo: undefined, memberCount: 5, members: [], color: 6, subscriptionPeriod: undefined, subscriptionPrice: undefined, verificationBotId: undefined, verificationCustomEmojiId: undefined, verificationDescription: undefined };
given("resolveInviteLink", () => ["https://t.me/+abc"], U(() => ({ _: "messages.checkChatInvite", hash: "abc" })), [
  ...each1(plainLink, plainWant, {
    megagroup: { channel: true, megagroup: true },
    broadcast: { channel: true, broadcast: true },
    public: { public: true },
    request: { request_needed: true },
    verified: { verified: true },
    scam: { scam: true },
    fake: { fake: true },
    again: { can_refulfill_subscription: true },
    about: { about: "d" },
    photo: { photo: PHOTOS[0][1] },
    people: { participants: theUsers() },
    price: { subscription_pricing: { _: "starsSubscriptionPricing", period: 7, amount: 30n }, subscription_form_id: 1n },
    bot: { bot_verification: { _: "botVerification", bot_id: 14n, icon: 15n, description: "v" } },
  }, {
    megagroup: { type: "supergroup" },
    broadcast: { type: "channel" },
    public: { isPublic: true },
    request: { isApprovalNeeded: true },
    verified: { isVerified: true },
    scam: { isScam: true },
    fake: { isFake: true },
    again: { isAlreadySubscribed: true },
    about: { description: "d" },
    photo: { photo: PHOTOS[0][2] },
    people: { members: [{ id: 12 }, { id: 14 }] },
    price: { subscriptionPeriod: 7, subscriptionPrice: 30 },
    bot: { verificationBotId: 14, verificationCustomEmojiId: "15", verificationDescription: "v" },
  }),
  ["a member", { _: "chatInviteAlready", chat: channel(50n) }, { id: -1000000000050 }],
  ["a look", { _: "chatInvitePeek", chat: group(9n), expires: 5 }, { id: -9 }],
], [], nowhere);
// reports
const reportAnswers: Part[] = [
  ["done", { _: "reportResultReported" }, { type: "reported" }],
  ["a choice", { _: "reportResultChooseOption", title: "t", options: [{ _: "messageReportOption", text: "a", option: new Uint8Array([1, 255, 254]) }, { _: "messageReportOption", text: "b", option: new Uint8Array([2]) }] }, { type: "optionRequired", title: "t", options: [{ text: "a" }, { text: "b" }] }],
  ["a comment", { _: "reportResultAddComment", option: new Uint8Array([3]) }, { type: "textRequired", isOptional: false }],
  ["a comment or none", { _: "reportResultAddComment", optional: true, option: new Uint8Array([3]) }, { type: "textRequired", isOptional: true }],
];
given("reportStory", (x) => [x.chat.id, 5], U(peer({ _: "stories.report", id: [5], message: "", option: new Uint8Array() })), reportAnswers);
given("reportStories", (x) => [x.chat.id, [5, 6]], U(peer({ _: "stories.report", id: [5, 6], message: "", option: new Uint8Array() })), reportAnswers);
// mini apps
given("openMiniApp", (x) => [12, x.chat.id], U(peer({ _: "messages.requestWebView", bot: { ...BOB.input, _: "inputUser" }, platform: "" })), each1({ _: "webViewResultUrl", url: "u" }, { url: "u", mode: "compact", queryId: undefined }, {
  full: { fullsize: true },
  screen: { fullscreen: true },
  all: { fullsize: true, fullscreen: true },
  query: { query_id: 5000000000000000001n },
}, { full: { mode: "default" }, screen: { mode: "fullscreen" }, all: { mode: "fullscreen" }, query: { queryId: "5000000000000000001" } }));
// stars and TON
const stars = (n: bigint, nanos = 0) => ({ _: "starsAmount", amount: n, nanos });
const ton = (hundredths: bigint) => ({ _: "starsTonAmount", amount: hundredths * 10000000n });
const FROM: Part[] = [
  ["other", { _: "starsTransactionPeerUnsupported" }, { type: "unsupported" }],
  ["App Store", { _: "starsTransactionPeerAppStore" }, { type: "appStore" }],
  ["Play Market", { _: "starsTransactionPeerPlayMarket" }, { type: "playMarket" }],
  ["premium bot", { _: "starsTransactionPeerPremiumBot" }, { type: "premiumBot" }],
  ["fragment", { _: "starsTransactionPeerFragment" }, { type: "fragment" }],
  ["ads", { _: "starsTransactionPeerAds" }, { type: "ads" }],
  ["api", { _: "starsTransactionPeerAPI" }, { type: "api" }],
  ["user", { _: "starsTransactionPeer", peer: { _: "peerUser", user_id: 12n } }, { type: "chat", chat: { id: 12 } }],
  ["channel", { _: "starsTransactionPeer", peer: { _: "peerChannel", channel_id: 50n } }, { type: "chat", chat: { id: -1000000000050 } }],
];
const payFlags: [string, string, boolean][] = [["refund", "isRefund", true], ["pending", "isPending", true], ["failed", "isFailed", true], ["gift", "isGift", true], ["reaction", "isReaction", false], ["stargift_upgrade", "isGiftUpgrade", false], ["business_transfer", "isBusinessTransfer", false], ["stargift_resale", "isGiftResale", true], ["posts_search", "isPostSearch", true], ["stargift_prepaid_upgrade", "isGiftPrepaidUpgrade", false], ["stargift_drop_original_details", "isGiftDetailDrop", false], ["phonegroup_message", "isPhoneGroupMessage", false], ["stargift_auction_bid", "isGiftAuctionBid", true], ["offer", "isOffer", true]];
const payFields: [any, any, boolean][] = [
  [{ title: "t" }, { title: "t" }, true],
  [{ description: "d" }, { description: "d" }, true],
  [{ transaction_date: 6, transaction_url: "u" }, { transactionDate: 6, transactionUrl: "u" }, true],
  [{ bot_payload: new Uint8Array([112, 113]) }, { botPayload: "pq" }, false],
  [{ msg_id: 7 }, { messageId: 7 }, true],
  [{ subscription_period: 8 }, { subscriptionPeriod: 8 }, false],
  [{ giveaway_post_id: 9 }, { giveawayMessageId: 9 }, false],
  [{ floodskip_number: 10 }, { broadcastNumber: 10 }, false],
  [{ starref_commission_permille: 11 }, { starrefCommissionPerMille: 11 }, true],
  [{ paid_messages: 12 }, { paidMessages: 12 }, true],
  [{ premium_gift_months: 13 }, { premiumGiftMonthCount: 13 }, false],
  [{ ads_proceeds_from_date: 14, ads_proceeds_to_date: 15 }, { adsProceedsFromDate: 14, adsProceedsToDate: 15 }, false],
];
for (const inTon of both) {
  const t = inTon ? { ton: true } : {};
  const amounts: Part[] = inTon ? [["some", ton(150n), 1.5], ["less", ton(1n), 0.01], ["none", ton(0n), 0], ["minus", ton(-25n), -0.25], ["many", ton(123456n), 1234.56]] : [["some", stars(150n), { amount: 150, nanos: 0 }], ["less", stars(1n, 500000000), { amount: 1, nanos: 500000000 }], ["none", stars(0n), { amount: 0, nanos: 0 }], ["minus", stars(-25n), { amount: -25 }]];
  const [amount, wAmount] = [amounts[0][1], amounts[0][2]];
  const key = inTon ? "tonAmount" : "amount";
  const paid = { _: "starsTransaction", id: "i", amount, date: 5, peer: FROM[0][1] };
  const wPaid = { id: "i", [key]: wAmount, date: 5, peer: FROM[0][2], ...Object.fromEntries(payFlags.filter((f) => f[2] || !inTon).map((f) => [f[1], false])), ...Object.fromEntries(payFields.flatMap((f) => Object.keys(f[1])).map((k) => [k, undefined])), gift: undefined, starrefChat: undefined, [inTon ? "starrefTonAmount" : "starrefAmount"]: undefined };
  const payments: Part[] = [
    ["plain", paid, wPaid],
    ...payFlags.filter((f) => f[2] || !inTon).map(([f, w]): Part => [f, { ...paid, [f]: true }, { ...wPaid, [w]: true }]),
    ...payFields.filter((f) => f[2] || !inTon).map(([v, w]): Part => [Object.keys(v)[0], { ...paid, ...v }, { ...wPaid, ...w }]),
    ...FROM.slice(1).map(([l, v, w]): Part => [l, { ...paid, peer: v }, { ...wPaid, peer: w }]),
    ...amounts.slice(1).map(([l, v, w]): Part => [l, { ...paid, amount: v }, { ...wPaid, [key]: w }]),
    ["program", { ...paid, starref_commission_permille: 11, starref_peer: { _: "peerChannel", channel_id: 50n }, starref_amount: amounts[1][1] }, { ...wPaid, starrefCommissionPerMille: 11, starrefChat: { id: -1000000000050 }, [inTon ? "starrefTonAmount" : "starrefAmount"]: amounts[1][2] }],
  ];
  const standing = (balance: any, more: any = {}) => ({ _: "payments.starsStatus", balance, ...people(), ...more });
  given(inTon ? "getTonBalance" : "getStarBalance", chatOnly, (x) => x.bot ? { _: "payments.getStarsTransactions", ...t, peer: x.chat.input, offset: "", limit: 1 } : { _: "payments.getStarsStatus", ...t, peer: x.chat.input }, amounts.map(([l, v, w]) => [l, standing(v), w]));
  const account = inTon ? { tonAmount: 0.01 } : {};
  const asks = peer({ _: "payments.getStarsTransactions", ...t, offset: "", limit: 100 });
  for (const next of [undefined, "n"]) {
    given(inTon ? "getTonTransactions" : "getStarTransactions", chatOnly, asks, [
      ...lists(payments, (list) => standing(amounts[1][1], { history: list, next_offset: next }), (w) => ({ ...account, transactions: w, nextOffset: next })),
      ["nothing told", standing(amounts[1][1]), { ...account, transactions: [], nextOffset: undefined }],
    ]);
  }
}
// gifts
const gift = (id: bigint) => ({ _: "starGift", id, sticker: { _: "document", id: 1n, access_hash: 2n, file_reference: REF, date: 3, mime_type: "image/webp", size: 4n, dc_id: 2, attributes: ATTRIBUTES()[3].v }, stars: 5n, convert_stars: 6n });
const hasGift: Part[] = each1({ _: "savedStarGift", date: 5, gift: gift(7n) }, { date: 5, gift: { id: "7" }, isPublic: true, sender: undefined, message: undefined, messageId: undefined, inputId: undefined, collectionIds: undefined, conversionStars: undefined }, {
  unsaved: { unsaved: true },
  user: { from_id: { _: "peerUser", user_id: 12n } },
  channel: { from_id: { _: "peerChannel", channel_id: 50n }, date: 6 },
  group: { from_id: { _: "peerChat", chat_id: 9n } },
  message: { message: { _: "textWithEntities", text: "abc", entities: [{ _: "messageEntityBold", offset: 1, length: 2 }] } },
  here: { msg_id: 8 },
  there: { saved_id: 5000000000000000001n },
  sorted: { collection_id: [4, 3] },
  stars: { convert_stars: 9n },
  other: { gift: gift(10n) },
}, { unsaved: { isPublic: false }, user: { sender: { id: 12 } }, channel: { sender: { id: -1000000000050 }, date: 6 }, group: { sender: { id: -9 } }, message: { message: "abc", entities: [{ type: "bold", offset: 1, length: 2 }] }, here: { messageId: 8 }, there: { inputId: "5000000000000000001" }, sorted: { collectionIds: [4, 3] }, stars: { conversionStars: 9 }, other: { gift: { id: "10" } } });
for (const next of [undefined, "n"]) {
  given("getClaimedGifts", chatOnly, peer({ _: "payments.getSavedStarGifts", offset: "", limit: 100 }), lists(hasGift, (gifts) => ({ _: "payments.savedStarGifts", count: 8, gifts, next_offset: next, ...people() }), (w) => ({ all: 8, offset: next, gifts: w })));
}
// bots that are managed
given("getManagedBotAccessSettings", () => [12], (x) => (x.bot || (x.invalid = true), { _: "bots.getAccessSettings", bot: { ...BOB.input, _: "inputUser" } }), each1({ _: "bots.accessSettings" }, { isAccessRestricted: false, usersWithAccess: [] }, { closed: { restricted: true }, some: { restricted: true, add_users: theUsers() } }, { closed: { isAccessRestricted: true }, some: { isAccessRestricted: true, usersWithAccess: [{ id: 12 }, { id: 14 }] } }), [], nowhere);
// inline results
const webFile = (attributes: any[], mime_type = "video/webm") => ({ _: "webDocument", url: "https://e.org/f", access_hash: 1n, size: 5, mime_type, attributes });
const thumbFile = { _: "webDocumentNoProxy", url: "https://e.org/t", size: 5, mime_type: "image/jpeg", attributes: [] };
const markup = { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: [{ _: "keyboardButtonUrl", text: "b", url: "u" }] }] };
const wMarkup = { type: "inlineKeyboard", inlineKeyboard: [[{ type: "url", text: "b", url: "u" }]] };
const bold = [{ _: "messageEntityBold", offset: 0, length: 1 }], wBold = [{ type: "bold", offset: 0, length: 1 }];
const place = { _: "geoPoint", long: 2.5, lat: 1.5, access_hash: 1n };
const INLINE: Part[] = [];
const inline = (label: string, a: any, w: any) => {
  const send = a.send_message ?? { _: "botInlineMessageMediaAuto", message: "" };
  INLINE.push([label, { _: "botInlineResult", id: "i", ...a, send_message: send }, { id: "i", replyMarkup: undefined, ...w }]);
  INLINE.push([`${label} with buttons`, { _: "botInlineResult", id: "i", ...a, send_message: { ...send, reply_markup: markup } }, { id: "i", ...w, replyMarkup: wMarkup }]);
};
inline("location", { type: "location", title: "T", send_message: { _: "botInlineMessageMediaGeo", geo: place } }, { type: "location", title: "T", latitude: 1.5, longitude: 2.5, horizontalAccuracy: undefined, livePeriod: undefined, heading: undefined, proximityAlertRadius: undefined });
inline("live location", { type: "location", title: "T", send_message: { _: "botInlineMessageMediaGeo", geo: { ...place, accuracy_radius: 3 }, period: 60, heading: 5, proximity_notification_radius: 6 } }, { type: "location", horizontalAccuracy: 3, livePeriod: 60, heading: 5, proximityAlertRadius: 6 });
inline("venue", { type: "venue", title: "T", send_message: { _: "botInlineMessageMediaVenue", geo: place, title: "T", address: "A", provider: "foursquare", venue_id: "f", venue_type: "g" } }, { type: "venue", title: "T", latitude: 1.5, longitude: 2.5, address: "A", foursquareId: "f", foursquareType: "g" });
inline("contact", { type: "contact", title: "T", send_message: { _: "botInlineMessageMediaContact", phone_number: "1", first_name: "F", last_name: "", vcard: "" } }, { type: "contact", phoneNumber: "1", firstName: "F", lastName: undefined, vcard: undefined });
inline("full contact", { type: "contact", title: "T", send_message: { _: "botInlineMessageMediaContact", phone_number: "1", first_name: "F", last_name: "L", vcard: "v" } }, { type: "contact", phoneNumber: "1", firstName: "F", lastName: "L", vcard: "v" });
inline("text", { type: "article", title: "T", description: "D", send_message: { _: "botInlineMessageText", message: "m" } }, { type: "article", title: "T", description: "D", messageContent: { type: "text", text: "m", entities: [], linkPreview: undefined } });
inline("bold text", { type: "article", title: "T", send_message: { _: "botInlineMessageText", message: "m", entities: bold } }, { type: "article", description: undefined, messageContent: { type: "text", text: "m", entities: wBold } });
for (const [more, w] of [[{ force_small_media: true }, { mediaSize: "small", isAboveText: false }], [{ force_large_media: true }, { mediaSize: "large", isAboveText: false }], [{ force_large_media: true, invert_media: true }, { mediaSize: "large", isAboveText: true }]] as [any, any][]) {
  inline(`link ${Object.keys(more)}`, { type: "article", title: "T", send_message: { _: "botInlineMessageMediaWebPage", message: "m", entities: bold, url: "https://e.org/p", ...more } }, { type: "article", messageContent: { type: "text", text: "m", entities: wBold, linkPreview: { url: "https://e.org/p", ...w } } });
}
const wDocument = { _: "document", id: 61n, access_hash: 62n, file_reference: REF, date: 3, mime_type: "a/b", size: 4n, dc_id: 2 };
const asVideo = [{ _: "documentAttributeVideo", duration: 7, w: 8, h: 9 }];
const asAudio = [{ _: "documentAttributeAudio", duration: 7, title: "S", performer: "P" }];
const wSize = { width: 8, height: 9 };
for (const [kind, attributes, byUrl, cached, w] of [
  ["audio", asAudio, "audio", "cachedAudio", { performer: "P", audioDuration: 7 }],
  ["gif", asVideo, "gif", "cachedGif", { ...wSize, duration: 7 }],
  ["video", asVideo, "video", "cachedVideo", { ...wSize, videoDuration: 7 }],
  ["voice", [{ _: "documentAttributeAudio", duration: 7, voice: true }], "voice", "cachedVoice", { voiceDuration: 7 }],
  ["file", [], "document", "cachedDocument", {}],
  ["photo", [{ _: "documentAttributeImageSize", w: 8, h: 9 }], "photo", "cachedPhoto", wSize],
  ["sticker", [], "", "sticker", undefined],
] as [string, any[], string, string, any][]) {
  const t = w === undefined ? {} : { title: "T" };
  if (byUrl) {
    inline(`${kind} by URL`, { type: kind, title: "T", content: webFile(attributes), thumb: thumbFile }, { type: byUrl, ...t, url: "https://e.org/f", ...w, messageContent: undefined, ...(kind === "audio" ? {} : { thumbnailUrl: "https://e.org/t" }), ...(kind === "video" ? { mimeType: "video/webm" } : {}) });
    inline(`${kind} by URL, a text`, { type: kind, title: "T", content: webFile(attributes), send_message: { _: "botInlineMessageMediaAuto", message: "m", entities: bold } }, { type: byUrl, url: "https://e.org/f", messageContent: { type: "text", text: "m", entities: wBold } });
  }
  // a photo's size is that of the largest
  const sizes = [{ _: "photoSize", type: "s", w: 1, h: 1, size: 1 }, { _: "photoSize", type: "m", w: 8, h: 9, size: 4 }];
  const held = kind === "photo" ? { photo: { _: "photo", id: 61n, access_hash: 62n, file_reference: REF, date: 4, sizes, dc_id: 2 } } : { document: { ...wDocument, attributes } };
  const file = (id: any) => id;
  inline(`${kind} of the server's`, { _: "botInlineMediaResult", type: kind, title: "T", ...held }, { type: cached, ...t, ...w, messageContent: undefined, ...(kind === "photo" ? {} : { fileId: file(serializeFileId({ type: FileType.Document, dcId: 2, fileReference: REF, location: { type: "common", id: 61n, accessHash: 62n } } as any)) }) });
  inline(`${kind} of the server's, a text`, { _: "botInlineMediaResult", type: kind, ...held, send_message: { _: "botInlineMessageMediaAuto", message: "m", entities: bold } }, { type: cached, messageContent: { type: "text", text: "m", entities: wBold } });
}
for (const next of [undefined, "n"]) {
  given("sendInlineQuery", (x) => [12, x.chat.id, { query: "q", offset: "o" }], U(peer({ _: "messages.getInlineBotResults", bot: { ...BOB.input, _: "inputUser" }, query: "q", offset: "o" })), lists(INLINE, (results) => ({ _: "messages.botResults", query_id: 5000000000000000001n, results, next_offset: next, cache_time: 0, users: theUsers() }), (w) => ({ id: "5000000000000000001", results: w, nextOffset: next })));
}
let made = false;
export const specs = (bot: boolean) => (all("quick"), rows(bot));
function all(tier: string) {
  if (!made) for (const f of pending) f(tier === "thorough" ? 1 : 0);
  made = true;
}
export default {
  id: "X05",
  level: "model_checking",
  rule: "every method that asks for something the other tables have no row for (sessions, websites, countries, blocked users, privacy, settings of chats, previews, stickers, sounds, suggestions, communities, message links, members, recent actions) and the methods for video chats and live streams, called by users and bots with every combination of at most two of its parameters and forms of the answer (three in thorough); what the server is asked, where, and what the call gives, against a table of what both mean",
  assumptions: ["Parameters and forms of the answer interact in pairs (in triples in thorough) at most."],
  exhaustive: true,
  scenarios: (tier) => {
    all(tier);
    const list: Scenario[] = [];
    for (const bot of both) for (const s of rows(bot)) list.push(scenario(s, tier === "thorough" ? 3 : 2));
    return list;
  },
} satisfies CheckDef;
