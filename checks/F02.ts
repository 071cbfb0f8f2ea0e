// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { fireTimer, settle, timers, W } from "../lib/world.ts";
import { content, FileServer, igeEnc, telegramError } from "../lib/files.ts";
import { same } from "../lib/tl.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { FileManager } from "/repo/client/2_file_manager.ts";
import { FileType, PhotoSourceType, serializeFileId } from "/repo/types/_file_id.ts";

const K = 1024;
const hex = (b: Uint8Array) => [...b].map((x) => x.toString(16).padStart(2, "0")).join("");

interface Stored {
  name: string;
  fileId: string;
  /** what the server must be asked for */
  location: Record<string, unknown>;
  dc: string;
  bytes: Uint8Array;
  plain: Uint8Array;
  information?: string;
}
const REF = Uint8Array.of(1, 2, 3, 0, 0, 0, 7);
function plainFile(size: number, id = 77n, salt = 1): Stored {
  const bytes = content(size, salt);
  return { name: `file ${id}`, fileId: serializeFileId({ type: FileType.Document, dcId: 4, fileReference: REF, location: { type: "common", id, accessHash: -id } } as any), location: { _: "inputDocumentFileLocation", id, access_hash: -id, file_reference: REF, thumb_size: "" }, dc: "4", bytes, plain: bytes };
}
function secretFile(size: number, claimed = size): Stored {
  const plain = content(size, 3), key = content(32, 8), iv = content(32, 9);
  const padded = new Uint8Array(Math.ceil(size / 16) * 16).fill(0x5A);
  padded.set(plain);
  return { name: "secret file", fileId: serializeFileId({ type: FileType.Encrypted, dcId: 2, location: { type: "common", id: 88n, accessHash: 89n } } as any), location: { _: "inputEncryptedFileLocation", id: 88n, access_hash: 89n }, dc: "2", bytes: size ? igeEnc(padded, key, iv) : padded, plain, information: `0${hex(key)}${hex(iv)}${claimed}` };
}

class World {
  srv: FileServer;
  disk = new Disk();
  storage!: ModelStorage;
  mgr!: any;
  gate: (op: string) => void | Promise<void> = () => {};
  constructor(public ctl: Ctl, public files: Stored[], public cached: boolean) {
    this.srv = new FileServer(ctl, (q, p) => {
      check(q._ === "upload.getFile", () => `unexpected request ${q._}`);
      const f = this.files.find((f) => same(f.location, q.location));
      check(f, () => `an unknown location was asked for: ${JSON.stringify(q.location, (_, v) => typeof v === "bigint" ? `${v}` : v)}`, "a wrong location was asked for");
      check(p?.type === "download" && p.dc === f.dc, () => `the file is in DC ${f.dc}, not ${p?.dc}`, "a file was asked for in the wrong place");
      check(q.offset >= 0n && q.offset % 1024n === 0n && q.limit > 0 && q.limit % 1024 === 0 && q.limit <= 1 << 20, () => `invalid offset or limit: ${q.offset} ${q.limit}`, "an invalid part was asked for");
      const o = Number(q.offset);
      return { _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: f.bytes.slice(o, o + q.limit) };
    });
    this.open();
  }
  open() {
    this.storage = new ModelStorage(this.disk, (op) => this.gate(op), true, this.cached);
    this.mgr = new FileManager({ id: 0, invoke: (q: any, p: any) => this.srv.invoke(q, p), storage: new StorageOperations(this.storage), messageStorage: null } as any);
  }
}
/** Someone who downloads a file, one chunk at a time. */
class Consumer {
  chunks: Uint8Array[] = [];
  done = false;
  stopped = false;
  error: any;
  waiting = false;
  abort = new AbortController();
  #it: AsyncGenerator<Uint8Array>;
  constructor(public w: World, public file: Stored, public params: { chunkSize?: number; offset?: number }, public scribble = false) {
    this.#it = w.mgr.download(file.fileId, { ...params, signal: this.abort.signal, fileInformation: file.information });
  }
  next() {
    this.waiting = true;
    this.#it.next().then((r) => {
      this.waiting = false;
      if (r.done) this.done = true;
      else {
        this.chunks.push(r.value.slice());
        if (this.scribble) r.value.fill(0xEE);
      }
    }, (e) => (this.waiting = false, this.done = true, this.error = e ?? new Error("rejected")));
  }
  stop() {
    this.stopped = true;
    this.waiting = true;
    this.#it.return(undefined).then(() => (this.waiting = false, this.done = true));
  }
  get data() {
    const r = new Uint8Array(this.chunks.reduce((n, c) => n + c.length, 0));
    let o = 0;
    for (const c of this.chunks) r.set(c, o), o += c.length;
    return r;
  }
  get expected() {
    return this.file.plain.subarray(this.params.offset ?? 0);
  }
  /** Checks what has been received so far. */
  verify() {
    const d = this.data, x = this.expected;
    check(d.length <= x.length && same(d, x.slice(0, d.length)), () => `${this.file.name}: the bytes received differ from the file (${d.length} of ${x.length}, chunks of ${this.chunks.map((c) => c.length)})`, "a downloaded file differs from the original");
    if (this.done && !this.error && !this.stopped) check(d.length === x.length, () => `${this.file.name}: the download ends after ${d.length} of ${x.length} bytes`, "a download ends too early");
  }
}
/** Lets a download finish undisturbed. */
async function finish(w: World, c: Consumer) {
  for (let i = 0; !c.done; i++) {
    check(i < 5000, "the download never ends");
    if (!c.waiting) c.next();
    await settle();
    if (c.done || !c.waiting) continue;
    if (w.srv.pending.length) w.srv.pending[0].answer();
    else if (timers().length) fireTimer(timers()[0]);
    else check(false, "the download is stuck", "the download is stuck");
  }
}
async function whole(w: World, f: Stored, params: any = {}) {
  const c = new Consumer(w, f, params);
  await finish(w, c);
  check(!c.error, () => `the download fails: ${c.error.stack}`, "a download fails");
  c.verify();
  return c;
}

/** Every size, offset and chunk size; the second time from the storage. */
function sizes(name: string, secret: boolean, sizes: number[], offsets: number[], chunks: number[]): Scenario {
  return {
    name,
    run: async (ctl) => {
      const size = sizes[ctl.free(sizes.length, "size")], chunkSize = chunks[ctl.free(chunks.length, "chunk")];
      for (const offset of offsets) {
        for (const cached of [false, true]) {
          const f = secret ? secretFile(size) : plainFile(size);
          const w = new World(ctl, [f], cached);
          await whole(w, f, { chunkSize, offset });
          await whole(w, f, { chunkSize });
          const n = w.srv.requests;
          for (const o2 of offsets) for (const c2 of [chunks[0], chunks.at(-1)!]) await whole(w, f, { chunkSize: c2, offset: o2 });
          if (cached) check(w.srv.requests === n, "a file that is in the storage is downloaded again");
          w.open();
          await whole(w, f, { offset });
        }
      }
      check(!W.unhandled.length, () => `unhandled: ${W.unhandled}`);
      ctl.outcome(`${size} ${chunkSize}`);
    },
  };
}

function schedules(name: string, file: () => Stored, chunkSize: number, acts: string, budget: number, offset = 0): Scenario {
  const a = new Set(acts.split(" "));
  return {
    name,
    budget,
    shard: true,
    run: async (ctl) => {
      const f = file();
      const w = new World(ctl, [f], a.has("cache") || a.has("crash"));
      const c = new Consumer(w, f, { chunkSize, offset }, a.has("scribble"));
      let fatal = false, aborted = false, failures = 0, crashed = false;
      if (a.has("crash")) {
        w.gate = (op) => {
          if (op === "set" && !crashed && ctl.choose(2, "crash before writing")) {
            crashed = w.storage.dead = true;
            ctl.step("crash");
          }
        };
      }
      for (let i = 0; !c.done && !crashed; i++) {
        check(i < 400, "the download never ends");
        await settle();
        c.verify();
        if (c.done || crashed) break;
        const opts: [string, () => void][] = [];
        const p = w.srv.pending;
        if (!c.waiting) opts.push(["next", () => c.next()]);
        for (let k = 0; k < p.length; k++) opts.push([`${p[k].label} answered`, () => p[k].answer()]);
        if (!opts.length && timers().length) opts.push(["time passes", () => fireTimer(timers()[0])]);
        check(opts.length, "the download is stuck");
        if (p.length && !fatal) {
          const last = p.length - 1;
          for (const k of last ? [0, last] : [0]) {
            if (a.has("fail")) opts.push([`${p[k].label} fails`, () => (failures++, p[k].error(new Error("connection lost")))], [`${p[k].label}: flood wait`, () => p[k].error(telegramError(420, "FLOOD_WAIT_3", p[k].q))]);
            if (a.has("fatal")) opts.push([`${p[k].label} fails for good`, () => (fatal = true, p[k].error(telegramError(400, "TIME_TOO_BIG", p[k].q)))]);
          }
          if (timers().length) opts.push(["time passes", () => fireTimer(timers()[0])]);
        }
        if (a.has("abort") && !aborted) opts.push(["abort", () => (aborted = true, c.abort.abort(new Error("enough")))]);
        if (a.has("stop") && !c.stopped && !c.waiting && c.chunks.length) opts.push(["stop", () => c.stop()]);
        const [label, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())];
        ctl.step(label);
        run();
      }
      c.verify();
      if (c.error) {
        check(fatal || aborted, () => `the download fails: ${c.error.stack}`, "a download fails");
        if (aborted && !fatal) check(c.error.message === "enough", () => `aborting gives ${c.error.message}`, "aborting does not give its reason");
      }
      // what is still under way has no effect
      const n = w.srv.requests;
      w.gate = () => {};
      for (let i = 0; i < 100 && (w.srv.pending.length || timers().length); i++) {
        if (w.srv.pending.length) w.srv.pending[0].answer();
        else fireTimer(timers()[0]);
        await settle();
      }
      if (c.done) check(w.srv.requests === n, "parts are asked for after the end of the download");
      check(!W.unhandled.length, () => `an error was not handled: ${W.unhandled.map((e: any) => e?.message ?? e)}`, "an error was not handled");
      // and later ones work
      w.open();
      await whole(w, f, { chunkSize });
      await whole(w, f, {});
      await whole(w, f, { offset: K });
      ctl.outcome(ctl.log.join());
    },
  };
}

/** Two downloads of one file at once. */
function concurrent(name: string, p1: any, p2: any, budget: number, stop: boolean): Scenario {
  return {
    name,
    budget,
    shard: true,
    run: async (ctl) => {
      const f = plainFile(5 * K + 5);
      const w = new World(ctl, [f], true);
      const cs = [new Consumer(w, f, p1), new Consumer(w, f, p2)];
      for (let i = 0; cs.some((c) => !c.done); i++) {
        check(i < 400, "the downloads never end");
        await settle();
        for (const c of cs) c.verify();
        const opts: [string, () => void][] = [];
        for (const [k, c] of cs.entries()) if (!c.done && !c.waiting) opts.push([`next ${k}`, () => c.next()]);
        const p = w.srv.pending;
        for (let k = 0; k < p.length; k++) if (k < 2 || k === p.length - 1) opts.push([p[k].label, () => p[k].answer()]);
        if (stop) for (const [k, c] of cs.entries()) if (!c.done && !c.waiting && c.chunks.length) opts.push([`stop ${k}`, () => c.stop()]);
        if (!opts.length) break;
        const [label, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())];
        ctl.step(label);
        run();
      }
      for (const c of cs) {
        check(c.done && !c.error, () => `a download fails: ${c.error?.stack}`, "a download fails");
        c.verify();
      }
      await whole(w, f, {});
      await whole(w, f, { offset: 2 * K });
      ctl.outcome(ctl.log.join());
    },
  };
}

/** Files whose identifiers have something in common. */
function families(): Scenario {
  return {
    name: "files that belong together",
    run: async (ctl) => {
      const photo = (big: boolean, chatId: bigint, peer: any): Stored => ({ name: `${big ? "big" : "small"} photo of ${chatId}`, fileId: serializeFileId({ type: FileType.ProfilePhoto, dcId: 1, location: { type: "photo", id: 5n, accessHash: 0n, source: { type: big ? PhotoSourceType.ChatPhotoBig : PhotoSourceType.ChatPhotoSmall, chatId, chatAccessHash: 9n } } } as any), location: { _: "inputPeerPhotoFileLocation", peer, photo_id: 5n, ...(big ? { big: true } : {}) }, dc: "1", bytes: content(2100, big ? 1 : 2), plain: content(2100, big ? 1 : 2) });
      const size = (type: string, story = false): Stored => ({ name: `photo ${type}`, fileId: serializeFileId({ type: story ? FileType.PhotoStory : FileType.Photo, dcId: 1, fileReference: REF, location: { type: "photo", id: 6n, accessHash: 7n, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Photo, thumbnailType: type.charCodeAt(0) } } } as any), location: { _: "inputPhotoFileLocation", id: 6n, access_hash: 7n, file_reference: REF, thumb_size: type }, dc: "1", bytes: content(1500, type.charCodeAt(0)), plain: content(1500, type.charCodeAt(0)) });
      const thumb = (type: string): Stored => ({ name: `thumbnail ${type}`, fileId: serializeFileId({ type: FileType.Thumbnail, dcId: 4, fileReference: REF, location: { type: "photo", id: 77n, accessHash: -77n, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Thumbnail, thumbnailType: type.charCodeAt(0) } } } as any), location: { _: "inputDocumentFileLocation", id: 77n, access_hash: -77n, file_reference: REF, thumb_size: type }, dc: "4", bytes: content(700, 40), plain: content(700, 40) });
      const set = (version: number): Stored => ({ name: `sticker set thumbnail ${version}`, fileId: serializeFileId({ type: FileType.Photo, dcId: 3, location: { type: "photo", id: 0n, accessHash: 0n, source: { type: PhotoSourceType.StickerSetThumbnailVersion, stickerSetId: 11n, stickerSetAccessHash: 12n, version } } } as any), location: { _: "inputStickerSetThumb", stickerset: { _: "inputStickerSetID", id: 11n, access_hash: 12n }, thumb_version: version }, dc: "3", bytes: content(3 * K, version), plain: content(3 * K, version) });
      const files = [
        photo(false, 123n, { _: "inputPeerUser", user_id: 123n, access_hash: 9n }),
        photo(true, 123n, { _: "inputPeerUser", user_id: 123n, access_hash: 9n }),
        photo(true, -456n, { _: "inputPeerChat", chat_id: 456n }),
        photo(false, -1000000000789n, { _: "inputPeerChannel", channel_id: 789n, access_hash: 9n }),
        size("s"),
        size("y"),
        size("y", true),
        plainFile(5000),
        thumb("m"),
        thumb("v"),
        set(1),
        set(2),
        plainFile(5000, 78n, 2),
        plainFile(3000, -78n, 3),
        { ...plainFile(900, 5001n, 4), fileId: serializeFileId({ type: FileType.Video, dcId: 10002, location: { type: "common", id: 5001n, accessHash: 1n } } as any), location: { _: "inputDocumentFileLocation", id: 5001n, access_hash: 1n, file_reference: new Uint8Array(), thumb_size: "" }, dc: "2-test" },
      ];
      const i = ctl.free(files.length, "first"), k = ctl.free(files.length, "second");
      const w = new World(ctl, files, ctl.free(2, "storage") === 1);
      ctl.step(`${files[i].name}, ${files[k].name}`);
      for (const f of [files[i], files[k], files[i], files[k]]) await whole(w, f, { chunkSize: K });
      ctl.outcome(`${i} ${k}`);
    },
  };
}
/** Secret files that are not as long as they are said to be. */
function lies(): Scenario {
  return {
    name: "wrong sizes of secret files",
    run: async (ctl) => {
      const sizes = [0, 16, K, 2 * K, 5 * K + 16], claims = [0, 1, K, 4 * K, 4 * K + 1, 5 * K + 16, 100 * K, 1e12];
      const size = sizes[ctl.free(sizes.length, "size")], claimed = claims[ctl.free(claims.length, "claimed")];
      const f = secretFile(size, claimed);
      const w = new World(ctl, [f], false);
      const c = new Consumer(w, f, { chunkSize: K });
      await finish(w, c);
      const d = c.data;
      check(d.length <= claimed && same(d.slice(0, size), f.plain.slice(0, d.length)), "wrong bytes");
      if (!c.error) check(d.length >= Math.min(size, claimed), () => `${d.length} of ${size} bytes, ${claimed} claimed`, "a download ends too early");
      check(!W.unhandled.length, () => `unhandled: ${W.unhandled}`);
      ctl.outcome(`${size} ${claimed}`);
    },
  };
}
/** Parameters that cannot be used. */
function refusals(): Scenario {
  return {
    name: "invalid parameters",
    run: async (ctl) => {
      const l = [{ chunkSize: 0 }, { chunkSize: -1024 }, { chunkSize: 1000 }, { chunkSize: 1.5 }, { chunkSize: 1024.5 }, { chunkSize: (1 << 20) + 1024 }, { chunkSize: NaN }, { offset: -1024 }, { offset: 1 }, { offset: 1000 }, { offset: 0.5 }];
      const p = l[ctl.free(l.length, "parameters")];
      const f = plainFile(3000);
      const w = new World(ctl, [f], false);
      const c = new Consumer(w, f, p);
      await finish(w, c);
      check(c.error && !w.srv.requests && !c.chunks.length, () => `${JSON.stringify(p)} is accepted`, "invalid parameters are accepted");
      ctl.outcome(JSON.stringify(p));
    },
  };
}

export default {
  id: "F02",
  level: "model_checking",
  rule: "every listed size, offset and chunk size, with and without a storage for files; every order of answers, requests for the next chunk, failures, abortion, ends, crashes and two downloads at once within the deviation budget; non-trivial when the case or the sequence of events is new",
  assumptions: ["a part shorter than asked for is the last one", "single writes to the storage are atomic"],
  exhaustive: true,
  hangSeconds: 60,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const list: Scenario[] = [families(), lies(), refusals()];
    const around = (n: number) => [n - 16, n - 1, n, n + 1, n + 16];
    const all = [0, 1, 15, 16, 17, ...around(K), ...around(2 * K), ...around(4 * K), ...around(5 * K), ...around(8 * K), ...around(9 * K)];
    for (const secret of [false, true]) list.push(sizes(secret ? "secret sizes" : "sizes", secret, secret ? all.slice(1) : all, [0, K, 2 * K, 4 * K, 5 * K, 20 * K], [K, 2 * K, 3 * K, 8 * K]));
    list.push(sizes("large files", false, [(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20], [0, 1 << 20], [512 * K, 1 << 20]));
    const s = (name: string, f: () => Stored, chunk: number, acts: string, budget: number, offset = 0) => list.push(schedules(name, f, chunk, acts, budget + d, offset));
    const six = () => plainFile(6 * K + 100);
    s("orders", six, K, "cache", 3);
    s("failures", six, K, "fail cache", 2);
    s("fatal failures", six, K, "fatal fail", 2, K);
    s("aborted", six, K, "abort fail cache", 2);
    s("stopped", six, K, "stop cache", 3);
    s("secret file", () => secretFile(5 * K + 7), K, "fail abort stop cache", 2);
    s("secret file from the middle", () => secretFile(5 * K + 7), K, "fail cache", 2, 2 * K);
    s("chunks changed by the application", six, 2 * K, "scribble cache stop", 2);
    s("chunks of a secret file changed by the application", () => secretFile(5 * K + 7), K, "scribble cache stop", 2);
    s("crashes", six, 2 * K, "crash stop", 3);
    list.push(
      concurrent("two at once", { chunkSize: K }, { chunkSize: K }, 2 + d, true),
      concurrent("two at once, chunks differ", { chunkSize: K }, { chunkSize: 2 * K }, 2 + d, true),
      concurrent("two at once, offsets differ", { chunkSize: 2 * K }, { chunkSize: K, offset: 2 * K }, 2 + d, true),
    );
    return list;
  },
} satisfies CheckDef;
