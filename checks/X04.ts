// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Scenario } from "../lib/explore.ts";
import { ALICE, CHANNEL, type Exp, type Opt, scenario, type Server, type Spec } from "../lib/calls.ts";
import { arg, bad, both, o, put } from "../lib/table.ts";
import { BUSINESS, edit, gives, inline, inlineId, KINDS, made, markup, noEphemeral, one, place, placed, REF, SEND, there, updates } from "./X01.ts";
import { deserializeFileId, FileType, serializeFileId } from "/repo/types/_file_id.ts";

// ---- texts
/** What the application and the server call it. */
type Two = [any, any];
const plain: Two = [{ type: "plain", text: "p" }, { _: "textPlain", text: "p" }];
const empty: Two = [{ type: "empty" }, { _: "textEmpty" }];
const INNER: [string, string, any?, any?][] = [
  ["bold", "textBold"],
  ["italic", "textItalic"],
  ["underline", "textUnderline"],
  ["strikethrough", "textStrike"],
  ["fixed", "textFixed"],
  ["link", "textUrl", { url: "https://e.org", linkPreviewId: "5000000000000000041" }, { url: "https://e.org", webpage_id: 5000000000000000041n }],
  ["emailLink", "textEmail", { email: "a@e.org" }, { email: "a@e.org" }],
  ["subscript", "textSubscript"],
  ["superscript", "textSuperscript"],
  ["marked", "textMarked"],
  ["phoneNumberLink", "textPhone", { phoneNumber: "+1" }, { phone: "+1" }],
  ["anchor", "textAnchor", { name: "n" }, { name: "n" }],
  ["spoiler", "textSpoiler"],
  ["mention", "textMention"],
  ["hashtag", "textHashtag"],
  ["botCommand", "textBotCommand"],
  ["cashtag", "textCashtag"],
  ["url", "textAutoUrl"],
  ["email", "textAutoEmail"],
  ["phoneNumber", "textAutoPhone"],
  ["bankCard", "textBankCard"],
  ["textMention", "textMentionName", { userId: 12 }, { user_id: 12n }],
  ["dateTime", "textDate", { date: 1700000000 }, { date: 1700000000 }],
  ["dateTime", "textDate", { date: 1700000000, format: "r" }, { date: 1700000000, relative: true }],
  ...["", "w"].flatMap((w) => ["", "d", "D"].flatMap((d) => ["", "t", "T"].map((t) => [w, d, t]))).filter((v) => v.join("")).map(([w, d, t]): [string, string, any, any] => [
    "dateTime",
    "textDate",
    { date: 5, format: w + d + t },
    { date: 5, ...(w ? { day_of_week: true } : {}), ...(d ? { [d === "d" ? "short_date" : "long_date"]: true } : {}), ...(t ? { [t === "t" ? "short_time" : "long_time"]: true } : {}) },
  ]),
];
const wrapped = ([a, b, m = {}, n = {}]: typeof INNER[0], [t, u]: Two): Two => [{ type: a, ...m, text: t }, { _: b, ...n, text: u }];
const LEAVES: Two[] = [
  plain,
  empty,
  [{ type: "plain", text: "" }, { _: "textPlain", text: "" }],
  [{ type: "math", code: "x^2" }, { _: "textMath", source: "x^2" }],
  [{ type: "customEmoji", customEmojiId: "5000000000000000042", alt: "😀" }, { _: "textCustomEmoji", document_id: 5000000000000000042n, alt: "😀" }],
];
const concat = (...l: Two[]): Two => [{ type: "concatenate", components: l.map((v) => v[0]) }, { _: "textConcat", texts: l.map((v) => v[1]) }];
const TEXTS: Two[] = [...LEAVES, ...INNER.map((i) => wrapped(i, plain)), concat(), concat(plain), concat(wrapped(INNER[0], plain), ...LEAVES)];
const NESTED: Two[] = INNER.slice(0, 24).flatMap((i) => [...INNER.slice(0, 24).map((j) => wrapped(i, wrapped(j, plain))), wrapped(i, concat(wrapped(i, empty), LEAVES[3])), concat(LEAVES[4], wrapped(i, plain), plain)]);

// ---- blocks
interface Ctx {
  photos: Map<bigint, any>;
  documents: Map<bigint, any>;
  /** photos in texts come after all the others */
  uploads: any[];
  uploaded: Map<any, bigint>;
}
/** How the application calls it, what the server is sent, what the server says, what the application is told */
type Four = [any, any, any, any];
type Block = (c: Ctx) => Four;
const same = (a: any, b: any, d: any = a): Four => [a, b, b, d];
const all = (l: Block[], c: Ctx): Four => l.map((b) => b(c)).reduce((s: any, v) => (s.forEach((t: any[], i: number) => t.push(v[i])), s), [[], [], [], []]);
const captioned = ([t, u]: Two, [v, w]: Two): Two => [{ text: t, credit: v }, { _: "pageCaption", text: u, credit: w }];
const noCaption = captioned(empty, empty), someCaption = captioned(plain, wrapped(INNER[1], plain));

type File = { kind: "photo" | "video" | "animation" | "audio" | "voice"; known: boolean; n: number };
const bytes = new Map<number, Uint8Array>();
const bytesOf = (n: number) => bytes.get(n) ?? (bytes.set(n, new Uint8Array([n, n, n, n])), bytes.get(n)!);
const NAMES = { photo: "file.jpg", video: "video.mp4", animation: "x.gif", audio: "audio.mp3", voice: "x.ogg" };
const typeOf = (k: File["kind"]) => k === "photo" ? FileType.Photo : KINDS[k].type;
const knownId = (k: File["kind"], n: number) => 5000000000000000100n + BigInt(n) + (k === "photo" ? 0n : 50n);
function knownFile(k: File["kind"], n: number) {
  const id = knownId(k, n);
  return serializeFileId({ type: typeOf(k), dcId: 2, fileReference: REF, location: k === "photo" ? { type: "photo", id, accessHash: -id, source: { type: 1, fileType: FileType.Photo, thumbnailType: 120 } } as any : { type: "common", id, accessHash: -id } });
}
/** A file: how it is given, and its number. */
function file({ kind, known, n }: File, c: Ctx, p: any): [any, bigint] {
  const list = kind === "photo" ? c.photos : c.documents;
  let id: bigint, access_hash: bigint, file_reference: Uint8Array;
  const source = known ? knownFile(kind, n) : bytesOf(n);
  if (known) {
    id = knownId(kind, n), access_hash = -id, file_reference = REF;
  } else {
    const before = c.uploaded.get(n);
    if (before) return [source, before];
    const i = c.uploads.length;
    id = 2000n + BigInt(i), access_hash = id + 1n, file_reference = new Uint8Array([1, 2]);
    c.uploaded.set(n, id);
    const f = { _: "inputFile", id: `file ${n},${n},${n},${n}`, parts: 1, name: p.fileName ?? NAMES[kind], md5_checksum: "" };
    const spoiler = p.isSpoiler || undefined;
    c.uploads.push({ kind, id, media: kind === "photo" ? { _: "inputMediaUploadedPhoto", file: f, spoiler } : { _: "inputMediaUploadedDocument", file: f, spoiler, mime_type: p.mimeType ?? KINDS[kind].mime, attributes: KINDS[kind].attributes(p).map((a) => kind === "animation" ? { ...a, supports_streaming: undefined } : a) } });
  }
  if (!list.has(id)) list.set(id, { kind, v: { id, access_hash, file_reference } });
  return [source, id];
}
const has = (n: any) => n === undefined ? {} : n;
const media = (f: File, p: any = {}, caption?: Two): Block => (c) => {
  p = { ...p };
  if (!f.known && (f.kind === "animation" || f.kind === "voice")) p.fileName = NAMES[f.kind];
  const [source, id] = file(f, c, p);
  const [a, b] = caption ?? noCaption;
  const given = { type: f.kind, [f.kind]: source, ...p, ...(caption ? { caption: a } : {}) };
  const told = { type: f.kind, fileId: `${typeOf(f.kind)} ${id}`, caption: a };
  if (f.kind === "photo") {
    return same(given, { _: "pageBlockPhoto", photo_id: id, caption: b, spoiler: p.isSpoiler || undefined, url: p.url, webpage_id: p.linkPreviewId ? BigInt(p.linkPreviewId) : undefined }, { ...told, isSpoiler: !!p.isSpoiler, ...has(p.url && { url: p.url }), ...has(p.linkPreviewId && { linkPreviewId: p.linkPreviewId }) });
  }
  if (f.kind === "audio" || f.kind === "voice") return same(given, { _: "pageBlockAudio", audio_id: id, caption: b }, told);
  return same(given, { _: "pageBlockVideo", video_id: id, caption: b, spoiler: p.isSpoiler || undefined, autoplay: p.isAutoplay || undefined, loop: p.isLoop || undefined }, { ...told, isSpoiler: !!p.isSpoiler, isAutoplay: !!p.isAutoplay, isLoop: !!p.isLoop });
};
/** a photo in a text, after everything else */
const photoText = (n: number): Two => [{ type: "photo", fileId: knownFile("photo", n), width: 3, height: 4 }, { _: "textImage", document_id: knownId("photo", n), w: 3, h: 4 }];
const text = (type: string, _: string, [t, u]: Two, more: any = {}, tl: any = more): Block => () => same({ type, ...more, text: t }, { _, ...tl, text: u });
const boxes = [{}, { isCheckbox: true }, { isCheckbox: true, isChecked: true }];
const box = (v: any) => ({ isCheckbox: !!v.isCheckbox, isChecked: !!v.isChecked });
const boxTl = (v: any) => ({ ...(v.isCheckbox ? { checkbox: true } : {}), ...(v.isChecked ? { checked: true } : {}) });
const numbers = [{}, { number: "2", value: 7, itemType: "a" }];
const numbersTl = (v: any) => v.number ? { num: "2", value: 7, type: "a" } : {};
type Item = (c: Ctx) => Four;
const itemText = ([t, u]: Two, b: any = {}): Item => () => same({ type: "text", ...box(b), text: t }, { _: "pageListItemText", ...boxTl(b), text: u });
const itemBlocks = (l: Block[], b: any = {}): Item => (c) => {
  const [v, w, x, y] = all(l, c), tl = { _: "pageListItemBlocks", ...boxTl(b) }, app = { type: "blockList", ...box(b) };
  return [{ ...app, blocks: v }, { ...tl, blocks: w }, { ...tl, blocks: x }, { ...app, blocks: y }];
};
const numberedText = ([t, u]: Two, b: any = {}, n: any = {}): Item => () => same({ type: "text", ...box(b), ...n, text: t }, { _: "pageListOrderedItemText", ...boxTl(b), ...numbersTl(n), text: u });
const numberedBlocks = (l: Block[], b: any = {}, n: any = {}): Item => (c) => {
  const [v, w, x, y] = all(l, c), tl = { _: "pageListOrderedItemBlocks", ...boxTl(b), ...numbersTl(n) }, app = { type: "blockList", ...box(b), ...n };
  return [{ ...app, blocks: v }, { ...tl, blocks: w }, { ...tl, blocks: x }, { ...app, blocks: y }];
};
const holds = (app: any, tl: any, key: string, items: Item[], tlKey = key): Block => (c) => {
  const [v, w, x, y] = all(items, c);
  return [{ ...app, [key]: v }, { ...tl, [tlKey]: w }, { ...tl, [tlKey]: x }, { ...app, [key]: y }];
};
const listOf = (...l: Item[]) => holds({ type: "list" }, { _: "pageBlockList" }, "items", l);
const orderedOf = (l: Item[], app: any = {}, tl: any = {}) => holds({ type: "orderedList", isReversed: false, ...app }, { _: "pageBlockOrderedList", ...tl }, "items", l);
const withCaption = (type: string, _: string, key: string, l: Block[], caption: Two = someCaption, app: any = {}, tl: any = {}): Block => holds({ type, ...app, caption: caption[0] }, { _, ...tl, caption: caption[1] }, key, l);
const embedded = (l: Block[], caption = someCaption) => withCaption("embedPost", "pageBlockEmbedPost", "blocks", l, caption, { url: "u", linkPreviewId: "44", authorPhotoId: "45", author: "a", date: 6 }, { url: "u", webpage_id: 44n, author_photo_id: 45n, author: "a", date: 6 });
const details = (l: Block[], isOpen = false, [t, u] = plain): Block => holds({ type: "details", isOpen, title: t }, { _: "pageBlockDetails", open: isOpen || undefined, title: u }, "blocks", l);
const quoteBlocks = (l: Block[], [t, u] = plain): Block => holds({ type: "blockQuoteBlocks", caption: t }, { _: "pageBlockBlockquoteBlocks", caption: u }, "blocks", l);
const cover = (b: Block): Block => (c) => {
  const [v, w, x, y] = b(c);
  return [{ type: "cover", cover: v }, { _: "pageBlockCover", cover: w }, { _: "pageBlockCover", cover: x }, { type: "cover", cover: y }];
};
const CONTAINERS: ((l: Block[]) => Block)[] = [
  (l) => listOf(itemBlocks(l)),
  (l) => listOf(itemText(plain), ...l.map((b) => itemBlocks([b]))),
  (l) => orderedOf([numberedBlocks(l)]),
  (l) => orderedOf([...l.map((b) => numberedBlocks([b])), numberedText(plain)]),
  (l) => withCaption("collage", "pageBlockCollage", "items", l),
  (l) => withCaption("slideshow", "pageBlockSlideshow", "items", l),
  (l) => embedded(l),
  (l) => details(l),
  (l) => quoteBlocks(l),
  (l) => cover(l.length === 1 ? l[0] : details(l)),
];
const CELLS = ["isHeader:header", "isCenterAligned:align_center", "isRightAligned:align_right", "isMiddleVerticallyAligned:valign_middle", "isBottomVerticallyAligned:valign_bottom"].map((v) => v.split(":"));
const cell = (p: any, t?: Two): Two => [
  { ...Object.fromEntries(CELLS.map(([k]) => [k, !!p[k]])), ...(p.colspan ? { colspan: p.colspan, rowspan: p.rowspan } : {}), ...(t ? { text: t[0] } : {}) },
  { _: "pageTableCell", ...Object.fromEntries(CELLS.filter(([k]) => p[k]).map(([, k]) => [k, true])), ...(p.colspan ? { colspan: p.colspan, rowspan: p.rowspan } : {}), ...(t ? { text: t[1] } : {}) },
];
const table = (rows: Two[][], isBordered = false, isStriped = false, [t, u] = plain): Block => () =>
  same({ type: "table", isBordered, isStriped, title: t, rows: rows.map((r) => ({ cells: r.map((v) => v[0]) })) }, { _: "pageBlockTable", bordered: isBordered || undefined, striped: isStriped || undefined, title: u, rows: rows.map((r) => ({ _: "pageTableRow", cells: r.map((v) => v[1]) })) });
const quote = (type: string, _: string, [t, u]: Two, [v, w]: Two): Block => () => same({ type, text: t, caption: v }, { _, text: u, caption: w });
const map = (caption: Two, accuracy?: number): Block => () => {
  const b = { w: 3, h: 4, zoom: 5, caption: caption[1] }, location = { latitude: 1.5, longitude: 2.5, ...(accuracy ? { horizontalAccuracy: accuracy } : {}) };
  const app = { type: "map", location, width: 3, height: 4, zoom: 5, caption: caption[0] };
  return [app, { _: "inputPageBlockMap", ...b, geo: { _: "inputGeoPoint", lat: 1.5, long: 2.5, accuracy_radius: accuracy } }, { _: "pageBlockMap", ...b, geo: { _: "geoPoint", lat: 1.5, long: 2.5, access_hash: 1n, accuracy_radius: accuracy } }, app];
};
const embed = (caption: Two, app: any = {}, tl: any = {}): Block => () => same({ type: "embed", isFullWidth: false, isScrollingAllowed: false, caption: caption[0], ...app }, { _: "pageBlockEmbed", caption: caption[1], ...tl });
/** Everything that has a text, with that text in every place. */
const SLOTS: ((t: Two) => Block)[] = [
  ...[["paragraph", "Paragraph"], ["footer", "Footer"], ["kicker", "Kicker"], ["thinking", "Thinking"], ...[1, 2, 3, 4, 5, 6].map((i) => [`heading${i}`, `Heading${i}`])].map(([a, b]) => (t: Two) => text(a, "pageBlock" + b, t)),
  (t) => text("pre", "pageBlockPreformatted", t, { language: "ts" }),
  (t) => quote("blockQuote", "pageBlockBlockquote", t, plain),
  (t) => quote("blockQuote", "pageBlockBlockquote", plain, t),
  (t) => quote("pullQuote", "pageBlockPullquote", t, plain),
  (t) => quote("pullQuote", "pageBlockPullquote", plain, t),
  (t) => listOf(itemText(t)),
  (t) => listOf(itemText(plain), itemBlocks([text("paragraph", "pageBlockParagraph", t)])),
  (t) => orderedOf([numberedText(plain), numberedText(t)]),
  (t) => orderedOf([numberedBlocks([text("paragraph", "pageBlockParagraph", t)])]),
  (t) => details([], false, t),
  (t) => details([text("footer", "pageBlockFooter", t)]),
  (t) => quoteBlocks([], t),
  (t) => quoteBlocks([text("footer", "pageBlockFooter", t)]),
  (t) => cover(text("footer", "pageBlockFooter", t)),
  (t) => table([], true, false, t),
  (t) => table([[cell({}), cell({}, plain)], [cell({}, t)]]),
  ...both.flatMap((second) => {
    const cap = (t: Two) => second ? captioned(plain, t) : captioned(t, plain);
    return [
      (t: Two) => withCaption("collage", "pageBlockCollage", "items", [], cap(t)),
      (t: Two) => withCaption("slideshow", "pageBlockSlideshow", "items", [], cap(t)),
      (t: Two) => embedded([], cap(t)),
      (t: Two) => map(cap(t)),
      (t: Two) => embed(cap(t)),
      ...(["photo", "video", "animation", "audio", "voice"] as const).map((kind) => (t: Two) => media({ kind, known: true, n: 1 }, {}, cap(t))),
    ];
  }),
  (t) => withCaption("collage", "pageBlockCollage", "items", [text("footer", "pageBlockFooter", t)]),
  (t) => withCaption("slideshow", "pageBlockSlideshow", "items", [text("footer", "pageBlockFooter", t)]),
  (t) => embedded([text("footer", "pageBlockFooter", t)]),
];
const FLAGS = [{}, { isSpoiler: true }, { isAutoplay: true }, { isLoop: true }, { isSpoiler: true, isAutoplay: true, isLoop: true }];
const SINGLE: Block[] = [
  () => same({ type: "divider" }, { _: "pageBlockDivider" }),
  () => same({ type: "anchor", name: "n" }, { _: "pageBlockAnchor", name: "n" }),
  () => same({ type: "math", code: "x" }, { _: "pageBlockMath", source: "x" }),
  () => same({ type: "pre", text: plain[0] }, { _: "pageBlockPreformatted", text: plain[1], language: "" }),
  listOf(),
  ...boxes.flatMap((b) => [listOf(itemText(plain, b)), listOf(itemBlocks([], b)), ...numbers.flatMap((n) => [orderedOf([numberedText(plain, b, n)]), orderedOf([numberedBlocks([], b, n)])])]),
  orderedOf([], { isReversed: true }, { reversed: true }),
  orderedOf([], { start: 4, itemsType: "i" }, { start: 4, type: "i" }),
  details([], true),
  ...CELLS.map(([k]) => table([[cell({ [k]: true, colspan: 2, rowspan: 3 }, plain)]])),
  ...both.flatMap((b) => both.map((s) => table([[cell({})], []], b, s))),
  map(someCaption, 7),
  embed(noCaption, { isFullWidth: true }, { full_width: true }),
  embed(noCaption, { isScrollingAllowed: true }, { allow_scrolling: true }),
  embed(noCaption, { url: "u", html: "h", posterPhotoId: "46", width: 3, height: 4 }, { url: "u", html: "h", poster_photo_id: 46n, w: 3, h: 4 }),
  ...both.flatMap((known) => [
    ...[{}, { isSpoiler: true }, { url: "https://e.org", linkPreviewId: "47" }].flatMap((p) => [undefined, someCaption].map((c) => media({ kind: "photo", known, n: 1 }, p, c))),
    ...(["video", "animation"] as const).flatMap((kind) => FLAGS.flatMap((p) => [undefined, someCaption].map((c) => media({ kind, known, n: 1 }, p, c)))),
    ...(["audio", "voice"] as const).flatMap((kind) => [undefined, someCaption].map((c) => media({ kind, known, n: 1 }, {}, c))),
  ]),
  media({ kind: "video", known: false, n: 1 }, { duration: 3, width: 4, height: 5, isStreamingSupported: true, fileName: "x.mp4" }),
  media({ kind: "animation", known: false, n: 1 }, { duration: 3, width: 4, height: 5 }),
  media({ kind: "audio", known: false, n: 1 }, { duration: 3, performer: "p", title: "t", fileName: "x.mp3" }),
  media({ kind: "voice", known: false, n: 1 }, { duration: 3 }),
];
const FILES: File[] = [
  { kind: "photo", known: true, n: 1 },
  { kind: "photo", known: true, n: 2 },
  { kind: "photo", known: false, n: 3 },
  { kind: "video", known: true, n: 4 },
  { kind: "video", known: false, n: 5 },
  { kind: "animation", known: false, n: 6 },
  { kind: "audio", known: true, n: 7 },
  { kind: "voice", known: false, n: 8 },
];
const MEDIA = FILES.map((f) => media(f));
const photoIn = (n: number) => text("paragraph", "pageBlockParagraph", concat(plain, wrapped(INNER[0], photoText(n))));
const pairs = <A, B>(a: A[], b: B[]): [A, B][] => a.flatMap((x) => b.map((y): [A, B] => [x, y]));

const SHAPES: Record<string, Block[][]> = {
  "kinds of blocks": [[], ...SINGLE.map((b) => [b])],
  "texts": [...pairs(SLOTS, TEXTS).map(([s, t]) => [s(t)]), ...NESTED.map((t) => [text("paragraph", "pageBlockParagraph", t)])],
  "photos in texts": [
    ...SLOTS.flatMap((s) => [[s(photoText(9))], [s(photoText(9)), MEDIA[0]], [MEDIA[2], s(wrapped(INNER[3], photoText(1))), MEDIA[0]]]),
    ...INNER.map((i) => [text("paragraph", "pageBlockParagraph", wrapped(i, photoText(9)))]),
    [photoIn(9), photoIn(9)],
    [photoIn(9), photoIn(10), MEDIA[1], MEDIA[0]],
  ],
  "media": [...pairs(MEDIA, MEDIA).map(([a, b]) => [a, b]), ...pairs(MEDIA, pairs(MEDIA, MEDIA)).map(([a, [b, c]]) => [a, b, c])],
  "media in blocks": [
    ...pairs(CONTAINERS, pairs(MEDIA, MEDIA)).flatMap(([k, [a, b]]) => [[k([a]), b], [a, k([b])], [k([a, b])]]),
    ...pairs(CONTAINERS, CONTAINERS).flatMap(([k, l]) => pairs([MEDIA[0], MEDIA[2], MEDIA[4]], [MEDIA[1], MEDIA[3], MEDIA[7]]).flatMap(([a, b]) => [[k([l([a])]), b], [k([l([a]), b])], [k([a, l([b])]), MEDIA[6]]])),
  ],
};
/** The rich text, the request for it, what the server tells of it, and what the application is told. */
function rich(blocks: Block[], p: any = {}): { c: Ctx; given: any; req: any; tl: any; told: any } {
  const c: Ctx = { photos: new Map(), documents: new Map(), uploads: [], uploaded: new Map() };
  const [given, req, tl, told] = all(blocks, c);
  const inTexts = new Set<bigint>();
  const look = (v: any) => {
    if (!v || typeof v !== "object") return;
    if (v._ === "textImage") inTexts.add(v.document_id);
    Object.values(v).forEach(look);
  };
  look(req);
  for (const id of inTexts) if (!c.photos.has(id)) c.photos.set(id, { kind: "photo", v: { id, access_hash: -id, file_reference: REF } });
  // photos told of in texts have identifiers too
  const named = (v: any): any => {
    if (!v || typeof v !== "object") return v;
    if (Array.isArray(v)) return v.map(named);
    const w = Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined).map(([k, x]) => [k, named(x)]));
    return w.type === "photo" && w.width === 3 ? { ...w, fileId: readFile(w.fileId) } : w;
  };
  const list = (m: Map<bigint, any>, _: string) => [...m.values()].map((f) => ({ _, ...f.v }));
  const full = (f: any) => f.kind === "photo" ? { _: "photo", ...f.v, date: 1, sizes: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 5 }], dc_id: 2 } : { _: "document", ...f.v, date: 1, mime_type: KINDS[f.kind].mime, size: 5n, dc_id: 2, attributes: KINDS[f.kind].attributes({}) };
  const flags = { ...(p.isRtl ? { rtl: true } : {}) };
  return {
    c,
    given: { type: "blocks", blocks: given, ...p },
    req: { _: "inputRichMessage", ...flags, noautolink: p.isAutomaticLinkDetectionDisabled || undefined, blocks: req, photos: list(c.photos, "inputPhoto"), documents: list(c.documents, "inputDocument") },
    tl: { _: "richMessage", ...flags, blocks: tl, photos: [...c.photos.values()].map(full), documents: [...c.documents.values()].map(full) },
    told: { blocks: named(told), isRtl: !!p.isRtl, isPartial: false },
  };
}
const readFile = (id: string) => {
  const f: any = deserializeFileId(id);
  return `${f.type} ${f.location.id}`;
};
function read(v: any): any {
  if (!v || typeof v !== "object") return v;
  if (Array.isArray(v)) return v.map(read);
  return Object.fromEntries(Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => [k, k === "fileId" && !/^\d+ \d+$/.test(v[k]) ? readFile(v[k]) : read(v[k])]));
}
function tells(got: any, told: any) {
  const pick = (r: any) => JSON.stringify(read({ blocks: r?.blocks, isRtl: r?.isRtl, isPartial: r?.isPartial }));
  check(pick(got) === pick(told), () => `the rich text given is\n    ${pick(got)}\n  instead of\n    ${pick(told)}`, "the rich text given");
}
/** The server is asked to keep the files first. */
const uploadsOf = (x: Exp, c: Ctx) => void x.before.push(...c.uploads.map((u) => ({ _: "messages.uploadMedia", peer: x.chat.input, media: u.media })));
const keeps = (c: () => Ctx, base?: Spec["other"]): Spec["other"] => (q, x, s) => {
  if (q._ !== "messages.uploadMedia") return base?.(q, x, s);
  const n = ((s as any).uploads = ((s as any).uploads ?? 0) + 1) - 1, u = c().uploads[n];
  if (!u) return { _: "messageMediaEmpty" };
  const v = { id: u.id, access_hash: u.id + 1n, file_reference: new Uint8Array([1, 2]) };
  return u.kind === "photo" ? { _: "messageMediaPhoto", photo: { _: "photo", ...v, date: 1, sizes: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 5 }], dc_id: 2 } } : { _: "messageMediaDocument", document: { _: "document", ...v, date: 1, mime_type: KINDS[u.kind].mime, size: 5n, dc_id: 2, attributes: KINDS[u.kind].attributes({}) } };
};
const richMade = (list: (x: Exp, s: Server, q: any) => any): Spec["answer"] => (q, x, s) => {
  const u = list(x, s, q);
  u.message.rich_message = (x as any).rich.tl;
  return updates(q.random_id && u.message._ === "message" ? [{ _: "updateMessageID", id: u.message.id, random_id: q.random_id }, u] : [u], x, s);
};
const P: any[] = [{}, { isRtl: true }, { isAutomaticLinkDetectionDisabled: true }, { isRtl: false, isAutomaticLinkDetectionDisabled: false }];
/** `blocks`: what is sent unless another one is chosen */
const ORDINARY: Block[] = [text("paragraph", "pageBlockParagraph", plain), MEDIA[0], details([MEDIA[4]])];
const put4 = (x: Exp, r: any) => {
  (x as any).rich = r;
};
// ---- other forms
const keptMedia: [any, any][] = [
  [{ type: "photo", photo: knownFile("photo", 1) }, { _: "inputRichFilePhoto", photo: { _: "inputPhoto", id: knownId("photo", 1), access_hash: -knownId("photo", 1), file_reference: REF } }],
  ...(["video", "animation", "audio", "voice"] as const).map((k, i): [any, any] => [{ type: k, [k]: knownFile(k, i + 2) }, { _: "inputRichFileDocument", document: { _: "inputDocument", id: knownId(k, i + 2), access_hash: -knownId(k, i + 2), file_reference: REF } }]),
];
const OTHER: [any, any][] = (["markdown", "html"] as const).flatMap((type) => {
  const r = { _: type === "html" ? "inputRichMessageHTML" : "inputRichMessageMarkdown", [type]: "<b>*t*" };
  return [
    [{ type, [type]: "<b>*t*" }, r],
    [{ type, [type]: "<b>*t*", isRtl: true }, { ...r, rtl: true }],
    [{ type, [type]: "<b>*t*", isAutomaticLinkDetectionDisabled: true }, { ...r, noautolink: true }],
    [{ type, [type]: "<b>*t*", media: [] }, { ...r, files: [] }],
    ...keptMedia.map(([m, f]) => [{ type, [type]: "<b>*t*", media: [{ id: "i", media: m }] }, { ...r, files: [{ ...f, id: "i" }] }]),
    [{ type, [type]: "<b>*t*", media: keptMedia.map(([m], i) => ({ id: `i${i}`, media: m })) }, { ...r, files: keptMedia.map(([, f], i) => ({ ...f, id: `i${i}` })) }],
  ] as [any, any][];
});

interface Where {
  name: string;
  call: (c: any, x: Exp, r: any) => Promise<any>;
  req: (x: Exp, rich_message: any) => any;
  answer: Spec["answer"];
  opts: (bot: boolean) => Opt[];
  finish?: (x: Exp) => void;
  other?: Spec["other"];
  result?: Spec["result"];
  bots: boolean[];
  /** which cannot keep files */
  noFiles?: boolean;
  chats?: any[];
}
const richThere = there(undefined, { rich_message: { _: "richMessage", blocks: [], photos: [], documents: [] } });
const WHERE: Where[] = [
  {
    name: "sendRichText",
    call: (c, x, r) => c.sendRichText(x.chat.id, r, x.p),
    req: (x, rich_message) => ({ _: "messages.sendMessage", peer: x.chat.input, message: "", random_id: 1n, rich_message }),
    answer: richMade((x, s, q) => made(x, s, q, undefined)),
    opts: () => [...SEND, ...markup(), ...BUSINESS, o("receiverId", 12)],
    finish: noEphemeral,
    result: (v, x, s) => (gives("richText")(v, x, s), tells(v.richText, (x as any).rich.told)),
    bots: both,
  },
  {
    name: "editMessageRichText",
    call: (c, x, r) => c.editMessageRichText(x.chat.id, 5, r, x.p),
    req: (x, rich_message) => ({ _: "messages.editMessage", peer: x.chat.input, id: 5, rich_message }),
    answer: richMade((x, s, q) => made(x, s, q, undefined, 5)),
    opts: () => [...markup(), ...BUSINESS],
    other: richThere,
    result: (v, x, s) => (gives("richText")(v, x, s), tells(v.richText, (x as any).rich.told)),
    bots: both,
  },
  { name: "editInlineMessageRichText", call: (c, x, r) => c.editInlineMessageRichText(inlineId, r, x.p), req: (x, rich_message) => (x.bot || (x.invalid = true), { _: "messages.editInlineBotMessage", id: inline, rich_message }), answer: () => true, opts: () => markup(), bots: both, noFiles: true, chats: [ALICE] },
  { name: "sendRichTextDraft", call: (c, x, r) => c.sendRichTextDraft(x.chat.id, 77, r, x.p), req: (x, rich_message) => (x.bot || (x.invalid = true), { _: "messages.setTyping", peer: x.chat.input, action: { _: "inputSendMessageRichMessageDraftAction", random_id: 77n, rich_message } }), answer: () => true, opts: () => [o("messageThreadId", 4, put({ top_msg_id: 4 }))], bots: both },
  {
    name: "saveRichTextDraft",
    call: (c, x, r) => c.saveRichTextDraft(x.chat.id, r, x.p),
    req: (x, rich_message) => (x.bot && (x.invalid = true), { _: "messages.saveDraft", peer: x.chat.input, message: "", rich_message }),
    answer: () => true,
    opts: () => [...place.filter((v) => v.key === "replyTo"), o("effectId", "5000000000000000077", put({ effect: 5000000000000000077n })), o("isMediaAboveText", true, put({ invert_media: true })), o("isLinkPreviewDisabled", true, put({ no_webpage: true })), o("isLinkPreviewDisabled", false)],
    finish: placed,
    bots: both,
  },
];
function make(w: Where, bot: boolean, name: string, shapes: Block[][] | null, forms: [any, any][], opts: Opt[], chats?: any[]): Spec {
  const made = shapes?.map((s, i) => [s, P[i % 5 === 4 ? 1 : 0]] as const);
  const r = (x: Exp) => (x as any).rich;
  const choose = (x: Exp) => {
    const i = x.a.shape ?? 0;
    if (made) {
      const v = rich(made[i][0], made[i][1]);
      put4(x, v);
      if (w.noFiles && v.c.uploads.length) x.skip = true;
      else uploadsOf(x, v.c);
      return v.req;
    }
    put4(x, { c: { uploads: [] }, given: structuredClone(forms[i][0]), tl: { _: "richMessage", blocks: [], photos: [], documents: [] }, told: { blocks: [], isRtl: false, isPartial: false } });
    return forms[i][1];
  };
  let now: Exp;
  return {
    name: `${w.name}: ${name}`,
    bot,
    chats: chats ?? w.chats,
    call: (c, x) => (now = x, w.call(c, x, r(x).given)),
    req: (x) => (now = x, w.req(x, choose(x))),
    opts: [...(shapes ?? forms).slice(1).map((_, i) => arg("shape", i + 1)), ...opts],
    finish: w.finish,
    answer: w.answer,
    other: keeps(() => r(now).c, w.other),
    result: w.result,
  };
}
export const specs = (bot: boolean): Spec[] => {
  const list: Spec[] = [];
  for (const w of WHERE) {
    if (w.name === "sendRichText" && bot === false) for (const [k, v] of Object.entries(SHAPES)) list.push(make(w, bot, k, v, [], [], [ALICE]));
    list.push(make(w, bot, "parameters", [ORDINARY, [MEDIA[2], MEDIA[3]], [], [photoIn(9)], [quoteBlocks([MEDIA[7]])]], [], w.opts(bot)));
    list.push(make(w, bot, "other forms", null, OTHER, w.opts(bot).slice(0, 4)));
  }
  if (!bot) {
    list.push({
      name: "getRichText",
      bot,
      chats: [ALICE],
      call: (c, x) => c.getRichText(x.chat.id, 5),
      req: (x) => (put4(x, rich([...SHAPES["kinds of blocks"], ...SHAPES["photos in texts"]][x.a.shape ?? 1].map((b) => b))), { _: "messages.getRichMessage", peer: x.chat.input, id: 5 }),
      opts: [...SHAPES["kinds of blocks"], ...SHAPES["photos in texts"]].map((_, i) => arg("shape", i)),
      answer: (_q, x) => ({ _: "messages.messages", topics: [], chats: [], users: [], messages: [{ _: "message", id: 5, peer_id: x.chat.peer, date: 1, message: "", rich_message: (x as any).rich.tl }] }),
      result: (v, x) => tells(v, (x as any).rich.told),
    });
    for (const kind of ["a photo", "nothing"]) {
      list.push({ name: `editMessageRichText of ${kind}`, bot, call: (c, x) => c.editMessageRichText(x.chat.id, 5, { type: "html", html: "h" }), req: (x) => (x.invalid = true, { _: "messages.editMessage" }), opts: [], other: kind === "nothing" ? ((q, x, s) => /getMessages$/.test(q._) ? { ...richThere(q, x), messages: [{ _: "messageEmpty", id: 5 }] } : undefined) : there({ _: "messageMediaPhoto", photo: { _: "photo", id: 1n, access_hash: 1n, file_reference: REF, date: 1, sizes: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 5 }], dc_id: 2 } }), answer: edit(5) });
    }
  }
  return list;
};
void bad, void CHANNEL, void one;

export default {
  id: "X04",
  level: "model_checking",
  rule: "every kind of block and of text of a rich text, alone, in every place, nested and in sequences of up to three with files known and new, and all forms of rich texts with the parameters of every method that takes one; the requests a model server receives, through encryption and serialization, and the rich text told of what the server made of it, compared with an independent table; an execution is non-trivial when the server was asked or the call was refused",
  assumptions: ["Texts are nested at most twice, blocks at most three times.", "No file is given both as a photo and as something else."],
  exhaustive: true,
  scenarios: (tier) => {
    const l: Scenario[] = [];
    for (const bot of both) for (const s of specs(bot)) l.push(scenario(s, /: (?!parameters|other)/.test(s.name) || s.name === "getRichText" ? 1 : tier === "thorough" ? 3 : 2));
    return l;
  },
} satisfies CheckDef;
