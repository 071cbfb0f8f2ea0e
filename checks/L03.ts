// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { settle, W } from "../lib/world.ts";
import { Bytes, same, show } from "../lib/tl.ts";
import { apiCodec } from "../lib/rpc.ts";
import { channel, SELF, user } from "../lib/client.ts";
import { Cloud, Disk, ModelStorage } from "../lib/cloud.ts";
import { testKey } from "../lib/mt.ts";
import { deserializeFileId, type FileId, FileType, PhotoSourceType, serializeFileId, toUniqueFileId } from "/repo/types/_file_id.ts";
import { deserializeInlineMessageId } from "/repo/types/A_callback_query.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageMemory } from "/repo/storage/2_storage_memory.ts";
import { InputError } from "/repo/0_errors.ts";
import * as Api from "/repo/tl/2_telegram.ts";

/** Zeros are written as a zero and how many there are, and bytes as URL-safe base64. */
function text(data: Uint8Array): string {
  const out: number[] = [];
  for (let i = 0; i < data.length;) {
    if (data[i]) {
      out.push(data[i++]);
      continue;
    }
    let n = 0;
    while (n < 255 && i < data.length && data[i] === 0) n++, i++;
    out.push(0, n);
  }
  return plain(new Uint8Array(out));
}
const plain = (b: Uint8Array) => btoa(String.fromCharCode(...b)).replaceAll("=", "").replaceAll("+", "-").replaceAll("/", "_");
const hex = (b: Uint8Array) => [...b].map((x) => x.toString(16).padStart(2, "0")).join("");

// How Telegram writes file identifiers.
function writeSource(w: Bytes, s: any) {
  w.u32(s.type);
  switch (s.type) {
    case PhotoSourceType.Legacy:
      return w.i64(s.secret);
    case PhotoSourceType.Thumbnail:
      return w.u32(s.fileType).u32(s.thumbnailType);
    case PhotoSourceType.ChatPhotoSmall:
    case PhotoSourceType.ChatPhotoBig:
      return w.i64(s.chatId).i64(s.chatAccessHash);
    case PhotoSourceType.StickerSetThumbnail:
      return w.i64(s.stickerSetId).i64(s.stickerSetAccessHash);
    case PhotoSourceType.FullLegacy:
      return w.i64(s.volumeId).u32(s.localId).i64(s.secret);
    case PhotoSourceType.ChatPhotoSmallLegacy:
    case PhotoSourceType.ChatPhotoBigLegacy:
      return w.i64(s.chatId).i64(s.chatAccessHash).i64(s.volumeId).u32(s.localId);
    case PhotoSourceType.StickerSetThumbnailLegacy:
      return w.i64(s.stickerSetId).i64(s.stickerSetAccessHash).i64(s.volumeId).u32(s.localId);
    case PhotoSourceType.StickerSetThumbnailVersion:
      return w.i64(s.stickerSetId).i64(s.stickerSetAccessHash).u32(s.version);
  }
  throw new Error("unknown source");
}
function written(f: FileId): string {
  const w = new Bytes();
  const l = f.location as any;
  w.u32(f.type | (f.fileReference ? 1 << 25 : 0) | (l.type === "web" ? 1 << 24 : 0)).u32(f.dcId);
  if (l.type === "web") w.str(l.url).i64(l.accessHash);
  else {
    if (f.fileReference) w.bytes(f.fileReference);
    w.i64(l.id).i64(l.accessHash);
    if (l.type === "photo") writeSource(w, l.source);
  }
  return text(w.raw(Uint8Array.of(52, 4)).done());
}
const PHOTO = [0, 1, 2, 11, 12, 20], DOCUMENT = [3, 4, 5, 8, 9, 10, 13, 16, 17, 18, 19, 21];
const kindOf = (t: number) => PHOTO.includes(t) ? 0 : DOCUMENT.includes(t) ? 1 : t === 14 || t === 15 ? 2 : t === 6 ? 3 : t === 7 ? 4 : -1;
/** What tells a file from others. */
function writtenUnique(f: FileId): string {
  const w = new Bytes();
  const l = f.location as any;
  w.u32(l.type === "web" ? 0 : kindOf(f.type) + 1);
  if (l.type === "web") w.str(l.url);
  else if (l.type === "common") w.i64(l.id);
  else {
    const s = l.source;
    switch (s.type) {
      case PhotoSourceType.Thumbnail:
        w.i64(l.id).raw(Uint8Array.of(s.thumbnailType === 97 ? 0 : s.thumbnailType === 99 ? 1 : s.thumbnailType + 5));
        break;
      case PhotoSourceType.ChatPhotoSmall:
      case PhotoSourceType.ChatPhotoBig:
        w.i64(l.id).raw(Uint8Array.of(s.type === PhotoSourceType.ChatPhotoBig ? 1 : 0));
        break;
      case PhotoSourceType.StickerSetThumbnailVersion:
        w.raw(Uint8Array.of(2)).i64(s.stickerSetId).u32(s.version);
        break;
      default:
        w.i64(l.id).i64(s.volumeId).u32(s.localId);
    }
  }
  return text(w.done());
}

const LONGS = [0n, 1n, -1n, 0x100n, 0x7fffffffffffffffn, -0x8000000000000000n, 0x0100000000000001n, 5068951297043006531n, 0x00ff00ff00ff00ffn];
const INTS = [0, 1, -1, 255, 0x7fffffff, -0x80000000, 0x01000001];
const bytes = (n: number, f = (i: number) => i + 1) => Uint8Array.from({ length: n }, (_, i) => f(i));
const REFERENCES: (Uint8Array | undefined)[] = [undefined, bytes(1), bytes(25), bytes(25, () => 0), bytes(26, (i) => i % 3 ? 0 : 200), bytes(253), bytes(254, (i) => i & 1), bytes(300, () => 0), bytes(0), bytes(520, () => 0), bytes(255 * 4, (i) => i === 700 ? 1 : 0)];
const CHARS = "abcdimpqsuvwxy".split("").map((c) => c.charCodeAt(0));

function sources(all: boolean): any[] {
  const longs = all ? LONGS : [0n, 1n, -1n, 5068951297043006531n], ints = all ? INTS : [0, 1, -1, 0x01000001];
  const out: any[] = [];
  for (const type of [PhotoSourceType.ChatPhotoSmall, PhotoSourceType.ChatPhotoBig]) for (const chatId of longs) for (const chatAccessHash of longs) out.push({ type, chatId, chatAccessHash });
  for (const thumbnailType of [...CHARS, 0, 127]) for (const fileType of [0, 2, 5, 8, 20]) out.push({ type: PhotoSourceType.Thumbnail, fileType, thumbnailType });
  for (const secret of longs) out.push({ type: PhotoSourceType.Legacy, secret });
  for (const stickerSetId of longs) {
    for (const stickerSetAccessHash of longs) {
      out.push({ type: PhotoSourceType.StickerSetThumbnail, stickerSetId, stickerSetAccessHash });
      for (const version of ints) out.push({ type: PhotoSourceType.StickerSetThumbnailVersion, stickerSetId, stickerSetAccessHash, version });
    }
    for (const localId of ints) for (const volumeId of [0n, 7n, -1n]) out.push({ type: PhotoSourceType.StickerSetThumbnailLegacy, stickerSetId, stickerSetAccessHash: stickerSetId ^ 5n, volumeId, localId });
  }
  for (const volumeId of longs) {
    for (const localId of ints) {
      out.push({ type: PhotoSourceType.FullLegacy, volumeId, localId, secret: 9n });
      for (const type of [PhotoSourceType.ChatPhotoSmallLegacy, PhotoSourceType.ChatPhotoBigLegacy]) out.push({ type, chatId: 8n, chatAccessHash: -8n, volumeId, localId });
    }
  }
  return out;
}
const key = (f: FileId) => {
  const l = f.location as any;
  if (l.type === "web") return `web ${l.url}`;
  if (l.type === "common") return `${kindOf(f.type)} ${l.id}`;
  const s = l.source, k = `${kindOf(f.type)}`;
  switch (s.type) {
    case PhotoSourceType.Thumbnail:
      return `${k} ${l.id} size ${s.thumbnailType === 97 ? "small" : s.thumbnailType === 99 ? "big" : s.thumbnailType}`;
    case PhotoSourceType.ChatPhotoSmall:
      return `${k} ${l.id} size small`;
    case PhotoSourceType.ChatPhotoBig:
      return `${k} ${l.id} size big`;
    case PhotoSourceType.StickerSetThumbnailVersion:
      return `${k} sticker set ${s.stickerSetId} ${s.version}`;
    default:
      return `${k} ${l.id} legacy ${s.volumeId} ${s.localId}`;
  }
};

function fileIds(type: number, thorough: boolean): Scenario {
  return {
    name: `file identifiers of type ${type}`,
    async run(ctl: Ctl) {
      const uniques = new Map<string, string>(), keys = new Map<string, string>();
      let n = 0;
      const one = (f: FileId) => {
        n++;
        const said = () => show(f);
        const t = serializeFileId(f);
        check(t === written(f), () => `${said()} is written as ${t} instead of ${written(f)}`, "a file identifier is written wrongly");
        check(/^[A-Za-z0-9_-]+$/.test(t), () => `${said()} is written as ${t}`, "a file identifier is not plain text");
        const back = deserializeFileId(t);
        const expected = { ...f, fileReference: (f.location as any).type === "web" ? undefined : f.fileReference };
        check(same(back, expected), () => `${said()} is read as ${show(back)}`, "a file identifier is read as that of another file");
        const s = (f.location as any).source;
        if (s && [PhotoSourceType.Legacy, PhotoSourceType.StickerSetThumbnail].includes(s.type)) return;
        const u = toUniqueFileId(f), k = key(f);
        check(u === writtenUnique(f), () => `the unique identifier of ${said()} is ${u} instead of ${writtenUnique(f)}`, "a unique file identifier is written wrongly");
        const was = uniques.get(u);
        check(was === undefined || was === k, () => `${u} is the unique identifier of ${k} and ${was}`, "a unique file identifier belongs to two files");
        const other = keys.get(k);
        check(other === undefined || other === u, () => `${u} and ${other} are the unique identifiers of ${k}`, "a file has two unique file identifiers");
        uniques.set(u, k);
        keys.set(k, u);
      };
      const dcs = [1, 2, 4, 5, 10002, 0, 203];
      const kind = kindOf(type);
      if (kind < 0) {
        for (const url of ["", "https://a.b/c?d=e", "ü", "a".repeat(253), "b".repeat(254), "\0\0x"]) for (const accessHash of LONGS) for (const dcId of dcs) one({ type: FileType.Temp, dcId, location: { type: "web", url, accessHash } } as any);
      } else if (kind === 0) {
        for (const source of sources(thorough)) for (const [i, id] of LONGS.entries()) one({ type, dcId: dcs[i % dcs.length], fileReference: REFERENCES[(i * 7 + n) % REFERENCES.length], location: { type: "photo", id, accessHash: LONGS[(i + n) % LONGS.length], source } } as any);
        for (const fileReference of REFERENCES) for (const dcId of dcs) for (const accessHash of LONGS) one({ type, dcId, fileReference, location: { type: "photo", id: 3n, accessHash, source: { type: PhotoSourceType.Thumbnail, fileType: 2, thumbnailType: 120 } } } as any);
      } else {
        for (const id of LONGS) for (const accessHash of LONGS) for (const dcId of dcs) for (const fileReference of REFERENCES) one({ type, dcId, fileReference, location: { type: "common", id, accessHash } } as any);
      }
      ctl.count("identifiers", n);
      ctl.step("all");
      ctl.outcome(`${type} ${uniques.size}`);
    },
  };
}

/** Text that is no identifier is refused, or taken for a possible one, in any case without harm. */
const odd: Scenario = {
  name: "altered identifiers",
  async run(ctl: Ctl) {
    const good = [
      serializeFileId({ type: FileType.Video, dcId: 4, fileReference: bytes(25) as any, location: { type: "common", id: 5068951297043006531n, accessHash: -5n } }),
      serializeFileId({ type: FileType.Photo, dcId: 2, location: { type: "photo", id: 7n, accessHash: 8n, source: { type: 1, fileType: 2, thumbnailType: 120 } } }),
      serializeFileId({ type: FileType.Temp, dcId: 2, location: { type: "web", url: "https://a.b", accessHash: 1n } }),
    ];
    let n = 0, refused = 0;
    const seen = new Map<string, string>();
    for (const g of good) {
      const variants = new Set<string>();
      for (let i = 0; i < g.length; i++) {
        variants.add(g.slice(0, i));
        for (const c of "ABgv09_-+/=é \n.") variants.add(g.slice(0, i) + c + g.slice(i + 1)), variants.add(g.slice(0, i) + c + g.slice(i));
      }
      for (const v of variants) {
        n++;
        let f;
        try {
          f = deserializeFileId(v);
        } catch (err) {
          check(err instanceof Error, "not an error is thrown");
          refused++;
          continue;
        }
        // what is accepted stands for something definite
        let again: string;
        try {
          again = serializeFileId(f);
        } catch {
          continue;
        }
        check(same(deserializeFileId(again), f), () => `${v} is read as ${show(f)}, and that when written again as ${show(deserializeFileId(again))}`, "a file identifier is read as that of another file");
      }
    }
    for (const v of ["", "A", "AA", "BA", "x", "AgAD", " ", "BQ"]) {
      let f: any = null;
      try {
        f = deserializeFileId(v);
      } catch { /* refused */ }
      check(f === null, () => `${JSON.stringify(v)} is read as ${show(f)}`, "a text is taken for a file identifier");
    }
    // the version of the format is checked
    for (const version of [0, 1, 2, 3, 5, 6, 255]) {
      const w = new Bytes().u32(5).u32(2).i64(1n).i64(2n).raw(Uint8Array.of(52, version)).done();
      let f: any = null;
      try {
        f = deserializeFileId(text(w));
      } catch (e) {
        check(e instanceof InputError, () => `a file identifier of version ${version} fails with ${e}`, "a file identifier of another version fails");
      }
      check(f === null, `a file identifier of version ${version} is accepted`);
    }
    ctl.count("identifiers", n);
    ctl.step("all");
    ctl.outcome(`${refused} ${seen.size}`);
  },
};

const inline: Scenario = {
  name: "inline message identifiers",
  async run(ctl: Ctl) {
    let n = 0;
    for (const dc_id of [1, 2, 4, 5, 0x7fffffff]) {
      for (const id of LONGS) {
        for (const access_hash of LONGS) {
          const all: any[] = [{ _: "inputBotInlineMessageID", dc_id, id, access_hash }];
          for (const small of INTS.slice(0, 5)) all.push({ _: "inputBotInlineMessageID64", dc_id, owner_id: id, id: small, access_hash });
          for (const object of all) {
            n++;
            const t = plain(apiCodec.encode(object));
            const back: any = deserializeInlineMessageId(t);
            check(same({ ...back }, object), () => `${t} is read as ${show(back)} instead of ${show(object)}`, "an inline message identifier is read as that of another message");
          }
        }
      }
    }
    const base = plain(apiCodec.encode({ _: "inputBotInlineMessageID", dc_id: 2, id: 5n, access_hash: 6n }));
    const others = [plain(apiCodec.encode({ _: "inputPeerSelf" })), plain(apiCodec.encode({ _: "peerUser", user_id: 5n })), "", "A", "!", "é", base.slice(0, -4), base.slice(0, 5), "AAAAAAAAAAAA"];
    for (const t of others) {
      let r: any, e: any;
      try {
        r = deserializeInlineMessageId(t);
      } catch (err) {
        e = err;
      }
      check(e instanceof InputError, () => `${JSON.stringify(t)} gives ${e ?? show(r)} instead of an InputError`, "a text is taken for an inline message identifier");
    }
    ctl.count("identifiers", n);
    ctl.step("all");
    ctl.outcome("inline");
  },
};

const auth: Scenario = {
  name: "authorization strings",
  async run(ctl: Ctl) {
    const keys = [testKey(), testKey(2), Uint8Array.from(testKey(), () => 0), Uint8Array.from(testKey(), (x, i) => i % 5 ? 0 : x), Uint8Array.from(testKey(), (x, i) => i < 100 ? x : 0)];
    let n = 0;
    for (const dc of ["1", "2", "5", "2-test", "203"]) {
      for (const authKey of keys) {
        for (const apiId of [1, 5, 0x100, 0x7fffffff, 0x01000000]) {
          for (const isBot of [false, true]) {
            for (const userId of [1, 777, 256, 5_000_000_000, 2 ** 40, 2 ** 52 + 1]) {
              n++;
              const value = { apiId, authKey, dc, isBot, userId };
              const expected = text(new Bytes().str(dc).bytes(authKey).u32(apiId).raw(Uint8Array.of(isBot ? 1 : 0)).i64(BigInt(userId)).done());
              const a = new StorageOperations(new StorageMemory());
              await a.initialize();
              await a.auth.set({ ...value, authKey: authKey as any } as any);
              const t = await a.exportAuthString(n % 3 === 0 ? undefined : n % 3 === 1 ? apiId : null);
              check(t === expected, () => `${show(value)} is written as ${t}`, "an authorization string is written wrongly");
              const b = new StorageOperations(new StorageMemory());
              await b.initialize();
              await b.importAuthString(t);
              const got: any = await b.auth.get();
              check(same({ apiId: got.apiId, authKey: got.authKey, dc: got.dc, isBot: got.isBot, userId: got.userId }, value), () => `${show(value)} is imported as ${show(got)}`, "an authorization string is imported as another");
              check(await b.getAccountId() === userId, "the account of an authorization string is another one");
              check(await b.exportAuthString() === t, "an imported authorization string is exported as another");
            }
          }
        }
      }
    }
    // nothing to export
    for (const part of [{ apiId: 0 }, { authKey: null }, { dc: null }, { userId: 0 }]) {
      const a = new StorageOperations(new StorageMemory());
      await a.initialize();
      await a.auth.set({ apiId: 5, authKey: testKey(), dc: "2", isBot: false, userId: 7, ...part } as any);
      let e: any;
      await a.exportAuthString().catch((x) => e = x);
      check(e instanceof InputError, () => `an authorization without ${Object.keys(part)} is exported`, "an incomplete authorization is exported");
    }
    ctl.count("identifiers", n);
    ctl.step("all");
    ctl.outcome("auth");
  },
};

const chats: Scenario = {
  name: "chat identifiers",
  async run(ctl: Ctl) {
    const edge = (max: bigint) => [1n, 2n, 255n, 256n, 0x7fffffffn, 0x80000000n, 0xffffffffn, 0x100000000n, max / 2n, max - 1n, max].filter((x) => x <= max);
    const seen = new Map<number, string>();
    let n = 0;
    const one = (peer: any, kind: "user" | "chat" | "channel", id: bigint, expected: number) => {
      n++;
      const got = Api.peerToChatId(peer);
      check(got === expected, () => `the identifier of ${show(peer)} is ${got} instead of ${expected}`, "a chat has the wrong identifier");
      check(Number.isSafeInteger(got), "an identifier is not exact");
      const k = `${kind} ${id}`;
      check((seen.get(got) ?? k) === k, () => `${got} is the identifier of ${k} and ${seen.get(got)}`, "two chats have one identifier");
      seen.set(got, k);
      const want = { _: kind === "user" ? "peerUser" : kind === "chat" ? "peerChat" : "peerChannel", [`${kind}_id`]: id };
      const back: any = Api.chatIdToPeer(got);
      check(same({ ...back }, want), () => `${got} stands for ${show(back)} instead of ${k}`, "an identifier stands for another chat");
      check(Api.chatIdToPeerId(got) === id && Api.getChatIdPeerType(got) === kind, () => `${got} stands for ${Api.getChatIdPeerType(got)} ${Api.chatIdToPeerId(got)} instead of ${k}`, "an identifier stands for another chat");
    };
    for (const id of edge((1n << 40n) - 1n)) {
      const n = Number(id);
      for (const p of [{ _: "peerUser", user_id: id }, { _: "inputPeerUser", user_id: id, access_hash: 1n }, { _: "user", id, access_hash: 1n }, { _: "userFull", id }, { _: "inputPeerUserFromMessage", user_id: id, peer: { _: "inputPeerSelf" }, msg_id: 1 }]) one(p, "user", id, n);
    }
    for (const id of edge(999_999_999_999n)) for (const p of [{ _: "peerChat", chat_id: id }, { _: "inputPeerChat", chat_id: id }, { _: "chat", id }, { _: "chatForbidden", id }, { _: "chatFull", id }]) one(p, "chat", id, -Number(id));
    for (const id of edge(997_852_516_352n)) for (const p of [{ _: "peerChannel", channel_id: id }, { _: "inputPeerChannel", channel_id: id, access_hash: 1n }, { _: "channel", id }, { _: "channelForbidden", id }, { _: "channelFull", id }, { _: "inputPeerChannelFromMessage", channel_id: id, peer: { _: "inputPeerSelf" }, msg_id: 1 }]) one(p, "channel", id, Number(-1_000_000_000_000n - id));
    ctl.count("identifiers", n);
    ctl.step("all");
    ctl.outcome("chats");
  },
};

// Files of received messages, sent again and downloaded by what the application was given.
const V = { _: "documentAttributeVideo", duration: 3, w: 10, h: 20, supports_streaming: true }, NAME = { _: "documentAttributeFilename", file_name: "a.bin" };
const MEDIA: Record<string, { attributes: any[]; mime: string; send: string; field: string; type: string }> = {
  document: { attributes: [NAME], mime: "application/zip", send: "sendDocument", field: "document", type: "document" },
  "document without a name": { attributes: [], mime: "", send: "sendDocument", field: "document", type: "document" },
  video: { attributes: [V, NAME], mime: "video/mp4", send: "sendVideo", field: "video", type: "video" },
  "video note": { attributes: [{ ...V, round_message: true }], mime: "video/mp4", send: "sendVideoNote", field: "videoNote", type: "videoNote" },
  animation: { attributes: [V, { _: "documentAttributeAnimated" }, NAME], mime: "video/mp4", send: "sendAnimation", field: "animation", type: "animation" },
  audio: { attributes: [{ _: "documentAttributeAudio", duration: 5, title: "t" }, NAME], mime: "audio/mpeg", send: "sendAudio", field: "audio", type: "audio" },
  voice: { attributes: [{ _: "documentAttributeAudio", duration: 5, voice: true }], mime: "audio/ogg", send: "sendVoice", field: "voice", type: "voice" },
  sticker: { attributes: [{ _: "documentAttributeImageSize", w: 512, h: 512 }, { _: "documentAttributeSticker", alt: "😀", stickerset: { _: "inputStickerSetEmpty" } }, NAME], mime: "image/webp", send: "sendSticker", field: "sticker", type: "sticker" },
  "video sticker": { attributes: [V, { _: "documentAttributeSticker", alt: "😀", stickerset: { _: "inputStickerSetEmpty" } }], mime: "video/webm", send: "sendSticker", field: "sticker", type: "sticker" },
};
const SIZES: Record<string, any[]> = {
  plain: [{ _: "photoSize", type: "m", w: 320, h: 200, size: 100 }, { _: "photoSize", type: "x", w: 800, h: 500, size: 900 }, { _: "photoSize", type: "s", w: 90, h: 60, size: 10 }],
  progressive: [{ _: "photoStrippedSize", type: "i", bytes: bytes(5) }, { _: "photoSize", type: "m", w: 320, h: 200, size: 100 }, { _: "photoSizeProgressive", type: "y", w: 1280, h: 800, sizes: [50, 500, 5000] }],
  one: [{ _: "photoSize", type: "w", w: 2560, h: 2560, size: 1 }],
};
interface Session {
  c: Cloud;
  client: any;
  done<T>(p: Promise<T>): Promise<{ v?: T; e?: any }>;
  push(o: any): Promise<void>;
}
async function session(ctl: Ctl, bot: boolean, onRequest: (r: any) => any): Promise<Session> {
  const c = new Cloud(ctl);
  const home = c.homeKey("2", SELF);
  c.onRequest = onRequest;
  const client = c.create(new ModelStorage(new Disk()), { defaultHandlers: false });
  const done = async <T>(p: Promise<T>): Promise<{ v?: T; e?: any }> => {
    let end: any;
    p.then((v) => end = { v }, (e) => end = { e });
    for (let i = 0; i < 30 && !end; i++) await c.drain();
    if (!end) fail("a call does not end");
    return end;
  };
  const w = new Bytes().str("2").bytes(testKey()).u32(5).raw(Uint8Array.of(bot ? 1 : 0)).i64(SELF).done();
  await done(client.importAuthString(text(w)));
  const started = await done(client.start({ botToken: "1:a" }));
  if (started.e) throw started.e;
  const link = c.net.links.findLast((l) => l.open)!;
  const id = c.requests.findLast((r) => r.link === link)!.m.sessionId;
  const push = async (o: any) => {
    link.conn.deliver(link, home.server.seal(id, apiCodec.encode(o)));
    await c.drain();
  };
  return { c, client, done, push };
}
/** Profile photos and inline messages, by what the application was given. */
function others(): Scenario {
  return {
    name: "profile photos and inline messages",
    shard: true,
    async run(ctl: Ctl) {
      const dc = ctl.pick(["4", "2"], "dc");
      const what = ctl.pick(["user", "chat", "channel", "inlineCallbackQuery", "chosenInlineResult"], "what");
      const id = ctl.pick([5068951297043006531n, -7n, 0x0100000000n], "id");
      ctl.step(`${what} at ${dc}`);
      let asked: any[] = [];
      const { c, client, done, push } = await session(ctl, true, (r) => {
        if (r.q._ === "upload.getFile" || r.q._ === "messages.editInlineBotMessage") asked.push({ ...r.q, dc: r.dc });
        if (r.q._ === "upload.getFile") return { result: { _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: bytes(r.q.offset === 0n ? 3 : 0) } };
        if (r.q._ === "messages.editInlineBotMessage") return { result: true };
      });
      if (what === "user" || what === "chat" || what === "channel") {
        const photo = { _: what === "user" ? "userProfilePhoto" : "chatPhoto", photo_id: id, dc_id: Number(dc), ...(id < 0n ? { has_video: true } : {}) };
        const entity: any = what === "user" ? { ...user(9n), photo } : what === "chat" ? { _: "chat", id: 9n, title: "t", photo, participants_count: 1, date: 1, version: 1 } : { ...channel(9n), photo };
        await push({ _: "updates", updates: [{ _: "updateConfig" }], users: what === "user" ? [entity] : [], chats: what === "user" ? [] : [entity], date: 1, seq: 0 });
        const number = what === "user" ? 9 : what === "chat" ? -9 : -1000000000009;
        const r: any = await done(client.getChatP(number));
        const p = r.v?.photo;
        check(p, () => `the photo of a ${what} is not known: ${r.e}`, "a photo is not known");
        check(p.hasVideo === (id < 0n), "whether a photo has a video is wrong");
        const peer = what === "user" ? { _: "inputPeerUser", user_id: 9n, access_hash: entity.access_hash } : what === "chat" ? { _: "inputPeerChat", chat_id: 9n } : { _: "inputPeerChannel", channel_id: 9n, access_hash: entity.access_hash };
        for (const big of [false, true]) {
          asked = [];
          const x = await done((async () => {
            for await (const _ of client.download(big ? p.bigFileId : p.smallFileId));
          })());
          const location = { _: "inputPeerPhotoFileLocation", ...(big ? { big: true } : {}), peer, photo_id: id };
          check(!x.e && asked.length && asked.every((a) => a.dc === dc && show(a.location) === show(location)), () => `for the ${big ? "big" : "small"} photo of a ${what}, ${show(asked)} is asked for instead of ${show(location)} at ${dc}: ${x.e}`, "downloading a profile photo asks for another file");
          const unique = writtenUnique({ type: FileType.ProfilePhoto, dcId: 1, location: { type: "photo", id, accessHash: 0n, source: { type: big ? 3 : 2, chatId: 0n, chatAccessHash: 0n } } } as any);
          check((big ? p.bigFileUniqueId : p.smallFileUniqueId) === unique, "the unique identifier of a profile photo is another one");
        }
      } else {
        let got: any = null;
        client.use((ctx: any) => {
          if (ctx.callbackQuery || ctx.chosenInlineResult) got = ctx.callbackQuery ?? ctx.chosenInlineResult;
        });
        for (const msg_id of [{ _: "inputBotInlineMessageID", dc_id: Number(dc), id, access_hash: 7n }, { _: "inputBotInlineMessageID64", dc_id: Number(dc), owner_id: id, id: 5, access_hash: -7n }]) {
          got = null;
          await push({ _: "updates", updates: [what === "inlineCallbackQuery" ? { _: "updateInlineBotCallbackQuery", query_id: 1n, user_id: 9n, msg_id, chat_instance: 1n, data: bytes(1) } : { _: "updateBotInlineSend", user_id: 9n, query: "q", id: "i", msg_id }], users: [user(9n)], chats: [], date: 1, seq: 0 });
          check(got?.inlineMessageId, () => `${what} is not received with an identifier`, "an inline message identifier is not received");
          for (const [call, f] of [["editInlineMessageText", () => client.editInlineMessageText(got.inlineMessageId, "x")], ["editInlineMessageReplyMarkup", () => client.editInlineMessageReplyMarkup(got.inlineMessageId)], ["editInlineMessageCaption", () => client.editInlineMessageCaption(got.inlineMessageId, { caption: "x" })], ["editInlineMessageLiveLocation", () => client.editInlineMessageLiveLocation(got.inlineMessageId, 1, 2)]] as [string, () => Promise<any>][]) {
            asked = [];
            const r = await done(f());
            check(asked.length === 1 && asked[0].dc === dc && show(asked[0].id) === show(msg_id), () => `${call} edits ${show(asked)} instead of ${show(msg_id)} at ${dc}: ${r.e}`, "another inline message is edited");
          }
        }
      }
      c.ok();
      W.timers.clear();
      await done(client.disconnect());
      ctl.outcome(`${what} ${dc} ${id}`);
    },
  };
}
function media(): Scenario {
  return {
    name: "files of messages",
    shard: true,
    async run(ctl: Ctl) {
      const kind = ctl.pick([...Object.keys(MEDIA), ...Object.keys(SIZES).map((x) => `photo ${x}`), "live photo"], "kind");
      const dc = ctl.pick(["4", "2"], "dc");
      const reference = ctl.pick([bytes(25), bytes(1, () => 0), bytes(300, () => 0), bytes(0)], "reference");
      const id = ctl.pick([5068951297043006531n, -7n], "id");
      ctl.step(`${kind} at ${dc}`);
      let sent: any = null;
      const parts: any[] = [];
      const { c, client, done, push } = await session(ctl, false, (r) => {
        if (r.q._ === "messages.sendMedia") {
          sent = r.q;
          return { error: [400, "STOP"] };
        }
        if (r.q._ === "upload.getFile") {
          parts.push({ ...r.q, dc: r.dc });
          return { result: { _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: bytes(r.q.offset === 0n ? 3 : 0) } };
        }
        return undefined;
      });
      let got: any = null;
      client.on("message", (ctx: any) => {
        got = ctx.message;
      });
      const m = MEDIA[kind];
      const size = SIZES[kind.split(" ")[1]] ?? SIZES.plain;
      const photo = { _: "photo", id, access_hash: -3n, file_reference: reference, date: 1, sizes: size, dc_id: Number(dc) };
      const document = (attributes: any[], mime_type: string, id_ = id) => ({ _: "document", id: id_, access_hash: 12345n, file_reference: reference, date: 1, mime_type, size: 3n, dc_id: Number(dc), attributes, thumbs: [{ _: "photoSize", type: "m", w: 1, h: 1, size: 2 }, { _: "photoStrippedSize", type: "i", bytes: bytes(3) }] });
      const what: any = m ? { _: "messageMediaDocument", document: document(m.attributes, m.mime) } : { _: "messageMediaPhoto", photo, ...(kind === "live photo" ? { live_photo: true, video: document([V], "video/mp4", id + 1n) } : {}) };
      await push({ _: "updates", updates: [{ _: "updateNewMessage", message: { _: "message", id: 9, peer_id: { _: "peerUser", user_id: 9n }, from_id: { _: "peerUser", user_id: 9n }, date: 1, message: "", media: what }, pts: 2, pts_count: 1 }], users: [user(9n)], chats: [], date: 1, seq: 0 });
      check(got, `a message with a ${kind} is not received`);
      const file = m ? got[m.field] : got.photo;
      check(got.type === (m ? m.type : kind === "live photo" ? "livePhoto" : "photo") && file, () => `a message with a ${kind} is received as ${got.type}`, "a file is received as one of another kind");
      /** Download by identifier: what is asked for, and where. */
      const fetches = async (fileId: string, location: any, name: string) => {
        parts.length = 0;
        const data: number[] = [];
        const r = await done((async () => {
          for await (const x of client.download(fileId)) data.push(...x);
        })());
        check(!r.e, () => `downloading ${name} fails with ${r.e}`, `downloading ${name} fails`);
        check(parts.some((x) => x.offset === 0n) && parts.every((x) => same({ ...x.location }, location) && x.dc === dc), () => `for ${name}, ${show(parts)} is asked for instead of ${show(location)} at ${dc}`, `downloading ${name} asks for another file`);
        check(data.join() === "1,2,3", "other data is downloaded");
      };
      const at = (type: string, o: any, thumb: string) => ({ _: type, id: o.id, access_hash: o.access_hash, file_reference: o.file_reference, thumb_size: thumb });
      const send = m ? m.send : "sendPhoto";
      const largest = size.filter((s) => s._ !== "photoStrippedSize").toSorted((a, b) => Math.max(b.size ?? 0, ...(b.sizes ?? [])) - Math.max(a.size ?? 0, ...(a.sizes ?? [])))[0];
      if (m) await fetches(file.fileId, at("inputDocumentFileLocation", what.document, ""), "a file");
      else await fetches(file.fileId, at("inputPhotoFileLocation", photo, largest.type), "a photo");
      if (!m) check(file.width === largest.w && file.height === largest.h, "the size of a photo is another one");
      const thumbs = kind === "voice" ? [] : file.thumbnails;
      const expected = kind === "voice" ? [] : m ? ["m"] : size.filter((s) => s !== largest && s._ !== "photoStrippedSize").toSorted((a, b) => a.size - b.size).map((s) => s.type);
      check(thumbs.length === expected.length, () => `a ${kind} has the thumbnails ${show(thumbs)}`, "thumbnails are missing");
      for (const [i, t] of thumbs.entries()) await fetches(t.fileId, m ? at("inputDocumentFileLocation", what.document, "m") : at("inputPhotoFileLocation", photo, expected[i]), "a thumbnail");
      if (kind === "live photo") await fetches(got.video.fileId, at("inputDocumentFileLocation", what.video, ""), "the video of a live photo");
      // unique identifiers
      const uniques = [file.fileUniqueId, ...thumbs.map((t: any) => t.fileUniqueId), ...(got.video && !m ? [got.video.fileUniqueId] : [])];
      check(new Set(uniques).size === uniques.length, "files of a message have one unique identifier");
      check(file.fileUniqueId === (m ? writtenUnique({ type: FileType.Document, dcId: 1, location: { type: "common", id, accessHash: 0n } }) : writtenUnique({ type: FileType.Photo, dcId: 1, location: { type: "photo", id, accessHash: 0n, source: { type: 1, fileType: 2, thumbnailType: largest.type.charCodeAt(0) } } } as any)), "the unique identifier is another one");
      // sent again
      const r = await done(client[send](9, file.fileId));
      check(sent, () => `sending a ${kind} by its identifier ends with ${r.e}`, "a file is not sent by its identifier");
      const input = sent.media.id;
      const o = m ? what.document : photo;
      check(sent.media._ === (m ? "inputMediaDocument" : "inputMediaPhoto") && input.id === o.id && input.access_hash === o.access_hash && hex(input.file_reference) === hex(reference), () => `${send} by identifier sends ${show(sent.media)}`, "another file is sent");
      // and not as something else
      for (const other of ["sendPhoto", ...new Set(Object.values(MEDIA).map((x) => x.send))]) {
        if (other === send) continue;
        sent = null;
        const x = await done(client[other](9, file.fileId));
        check(x.e instanceof InputError && !sent, () => `${other} of a ${kind} gives ${x.e} and sends ${show(sent)}`, "a file is sent as one of another kind");
      }
      c.ok();
      W.timers.clear();
      await done(client.disconnect());
      ctl.outcome(`${kind} ${dc} ${file.fileId.length}`);
      await settle();
    },
  };
}

export default {
  id: "L03",
  level: "model_checking",
  rule: "all combinations of the listed types, data centers, references, locations, sources and edge values, and of altered identifiers; all kinds of files in messages, downloaded and sent by identifier; non-trivial when the identifiers differ",
  assumptions: ["Photo sources of formats no longer in use have no unique identifier."],
  exhaustive: true,
  scenarios(tier) {
    const t = tier === "thorough";
    return [...[...PHOTO, ...DOCUMENT, 6, 7, 14, 15, -1].map((x) => fileIds(x, t)), odd, inline, auth, chats, media(), others()];
  },
} satisfies CheckDef;
