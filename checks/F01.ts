// deno-lint-ignore-file no-explicit-any
import { createHash } from "node:crypto";
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { fireTimer, settle, timers, W } from "../lib/world.ts";
import { content, FileServer, igeDec, telegramError } from "../lib/files.ts";
import { same } from "../lib/tl.ts";
import { FileManager } from "/repo/client/2_file_manager.ts";

type Kind = "buffer" | "view" | "stream" | "iterable" | "async iterable" | "data url";
interface Job {
  kind: Kind;
  size: number;
  chunkSize?: number;
  /** sizes of what the source yields */
  cuts?: number[];
  encrypt?: boolean;
  progress?: boolean;
  fileSize?: boolean;
  fileName?: string;
  pool?: number;
}
const KEY = content(32, 5), IV = content(32, 6);

/** One upload, from its source to the answers of the server. */
class Run {
  events: any[] = [];
  srv: FileServer;
  mgr: any;
  original: Uint8Array<ArrayBuffer>;
  around: Uint8Array<ArrayBuffer>;
  copy: Uint8Array;
  waiting: (() => void) | null = null;
  /** whether the next piece of the source waits to be let through */
  slow = false;
  failSource = false;
  next = 0;
  result: any;
  error: any;
  done = false;
  abort = new AbortController();
  constructor(public ctl: Ctl, public job: Job) {
    this.srv = new FileServer(ctl);
    this.around = content(job.size + 40);
    this.original = this.around.subarray(20, 20 + job.size);
    this.copy = this.original.slice();
    this.mgr = new FileManager({
      id: 0,
      getUploadPoolSize: () => Promise.resolve(job.pool ?? 1),
      invoke: (q: any, p: any) => this.srv.invoke(q, p),
      handleUpdate: (u: any) => this.events.push(structuredClone(u)),
      storage: {},
      messageStorage: {},
    } as any);
  }
  async piece(): Promise<Uint8Array | null> {
    if (this.slow) await new Promise<void>((r) => this.waiting = r);
    if (this.failSource) throw new Error("the source failed");
    const cuts = this.job.cuts ?? [this.job.size];
    if (this.next >= cuts.length) return null;
    const from = cuts.slice(0, this.next).reduce((a, b) => a + b, 0);
    return this.original.slice(from, from + cuts[this.next++]);
  }
  source(): any {
    // deno-lint-ignore no-this-alias
    const r = this;
    switch (this.job.kind) {
      case "buffer":
        return this.original.slice();
      case "view":
        return this.original;
      case "stream":
        return new ReadableStream({
          async pull(c) {
            const p = await r.piece();
            p ? c.enqueue(p) : c.close();
          },
        });
      case "async iterable":
        return (async function* () {
          for (let p; (p = await r.piece());) yield p;
        })();
      case "iterable":
        return (this.job.cuts ?? [this.job.size]).map((n, i, l) => {
          const from = l.slice(0, i).reduce((a, b) => a + b, 0);
          return this.original.slice(from, from + n);
        });
      case "data url":
        return new URL(`data:application/octet-stream;base64,${btoa(String.fromCharCode(...this.original))}`);
    }
  }
  async start() {
    const params: any = { signal: this.abort.signal };
    if (this.job.chunkSize) params.chunkSize = this.job.chunkSize;
    if (this.job.fileName !== undefined) params.fileName = this.job.fileName;
    if (this.job.fileSize) params.fileSize = this.job.size;
    if (this.job.progress) params.progressId = await this.mgr.getProgressId();
    this.progressId = params.progressId;
    const enc = this.job.encrypt ? { key: KEY.slice(), iv: IV.slice() } : undefined;
    this.mgr.upload(this.source(), params, null, true, enc).then((v: any) => (this.result = v, this.done = true), (e: any) => (this.error = e ?? new Error("rejected"), this.done = true));
  }
  progressId?: string;
  verify() {
    const { job } = this;
    const chunk = job.chunkSize ?? 512 * 1024;
    check(same(this.around.subarray(20, 20 + job.size), this.copy), "the caller's buffer was changed");
    const file = job.encrypt ? this.result.inputEncryptedFile : this.result;
    let data = this.srv.assemble(file, chunk);
    if (job.encrypt) {
      check(this.result.fileSize === job.size, () => `the file size is given as ${this.result.fileSize} rather than ${job.size}`, "the size of an encrypted file is wrong");
      check(data.length % 16 === 0 && data.length - job.size < 16 && data.length >= job.size, () => `${data.length} encrypted bytes for ${job.size}`, "an encrypted file is not padded to blocks");
      data = igeDec(data.slice(), KEY, IV).slice(0, job.size);
      const md5 = createHash("md5").update(KEY).update(IV).digest();
      const fp = new DataView(new Uint8Array([0, 1, 2, 3].map((i) => md5[i] ^ md5[i + 4])).buffer).getInt32(0, true);
      check(file.key_fingerprint === fp, () => `the key fingerprint is ${file.key_fingerprint} rather than ${fp}`, "the key fingerprint is wrong");
      check(/^inputEncryptedFile(Big)?Uploaded$/.test(file._), "not an encrypted file");
    } else {
      check(/^inputFile(Big)?$/.test(file._), "not a file");
      check(job.fileName === undefined || file.name === job.fileName, () => `the file is named ${file.name}`, "the file name is wrong");
      check(typeof file.name === "string" && file.name.length > 0, "the file has no name");
    }
    check(data.length === job.size && same(data, this.copy), () => `the uploaded file differs from its source (${data.length} of ${job.size} bytes)`, "the uploaded file differs from its source");
    check(/Big/.test(file._) || job.size <= 10 * 1024 * 1024, "a file of more than 10 MB was uploaded as a small one");
    this.verifyProgress(true);
  }
  verifyProgress(success: boolean) {
    const l = this.events.map((e) => e.uploadProgress);
    if (!this.job.progress) return check(!l.length, "progress was reported without being asked for");
    let last = 0;
    for (const [i, e] of l.entries()) {
      check(e.id === this.progressId, "progress of another upload");
      check(e.uploaded >= last && e.uploaded <= this.job.size, () => `progress goes from ${last} to ${e.uploaded} of ${this.job.size}`, "progress is wrong");
      check(e.total === this.job.size || ((e.total === 0 || e.isUploaded) && this.job.kind !== "buffer" && this.job.kind !== "view" && !this.job.fileSize), () => `the total is given as ${e.total} of ${this.job.size}`, "progress is wrong");
      check(!e.isUploaded || (i === l.length - 1 && success && e.uploaded === this.job.size), "the end is reported too early", "the end is reported too early");
      last = e.uploaded;
    }
    if (success) check(l.at(-1)?.isUploaded, "the end of the upload is not reported");
  }
  async finish(limit = 100000) {
    for (let i = 0; !this.done; i++) {
      check(i < limit, "the upload never ends");
      await settle(1);
      if (this.done) break;
      if (this.waiting) {
        const w = this.waiting;
        this.waiting = null;
        w();
      } else if (this.srv.pending.length) this.srv.pending[0].answer();
      else if (timers().length) fireTimer(timers()[0]);
      else check(false, "the upload is stuck", "the upload is stuck");
    }
  }
}

function sizes(name: string, jobs: () => Job[]): Scenario {
  return {
    name,
    run: async (ctl) => {
      const l = jobs();
      const job = l[ctl.free(l.length, "job")];
      const r = new Run(ctl, job);
      await r.start();
      await r.finish();
      const label = JSON.stringify(job);
      if (job.size === 0) {
        check(r.error, () => `${label}: an empty file was uploaded`, "an empty file was uploaded");
        check(!r.srv.requests, "parts of an empty file were saved");
      } else {
        check(!r.error, () => `${label}: ${r.error.stack}`, "an upload failed");
        r.verify();
      }
      check(!W.unhandled.length, () => `unhandled: ${W.unhandled}`);
      ctl.outcome(label);
    },
  };
}
function compositions(n: number): number[][] {
  if (n === 0) return [[]];
  const r: number[][] = [];
  for (let k = 1; k <= n; k++) for (const c of compositions(n - k)) r.push([k, ...c]);
  return r;
}

function schedules(name: string, job: Job, acts: string, budget: number): Scenario {
  const a = new Set(acts.split(" "));
  return {
    name,
    budget,
    shard: true,
    run: async (ctl) => {
      const r = new Run(ctl, job);
      r.slow = a.has("slow");
      await r.start();
      let fatal = false, aborted = false, afterAbort = -1;
      for (let i = 0; !r.done; i++) {
        check(i < 400, "the upload never ends");
        await settle(1);
        if (r.done) break;
        if (aborted) check(r.srv.requests === afterAbort, "a part is sent after the upload was aborted");
        const opts: [string, () => void][] = [];
        const p = r.srv.pending;
        if (r.waiting) {
          opts.push(["the source continues", () => {
            const w = r.waiting!;
            r.waiting = null;
            w();
          }]);
        }
        for (let k = 0; k < p.length; k++) opts.push([`${p[k].label} succeeds`, () => p[k].answer()]);
        if (!opts.length && timers().length) opts.push(["time passes", () => fireTimer(timers()[0])]);
        check(opts.length, "the upload is stuck");
        if (timers().length && p.length) opts.push(["time passes", () => fireTimer(timers()[0])]);
        if (p.length && !fatal) {
          const last = p.length - 1;
          for (const k of last ? [0, last] : [0]) {
            if (a.has("fail")) {
              opts.push([`${p[k].label} fails`, () => p[k].error(new Error("connection lost"))]);
              opts.push([`${p[k].label} succeeds unnoticed`, () => {
                r.srv.save(p[k].q);
                p[k].error(new Error("connection lost"));
              }]);
              opts.push([`${p[k].label}: flood wait`, () => p[k].error(telegramError(420, "FLOOD_WAIT_3", p[k].q))]);
            }
            if (a.has("fatal")) opts.push([`${p[k].label} fails for good`, () => (fatal = true, p[k].error(telegramError(400, "TIME_TOO_BIG", p[k].q)))]);
          }
        }
        if (a.has("abort") && !aborted) {
          opts.push(["abort", () => {
            aborted = true;
            afterAbort = r.srv.requests;
            r.abort.abort(new Error("enough"));
          }]);
        }
        if (a.has("source") && r.waiting && !r.failSource) opts.push(["the source fails", () => (r.failSource = true, r.waiting!(), r.waiting = null)]);
        const [label, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())];
        ctl.step(label);
        run();
      }
      // whatever is still under way
      for (let i = 0; i < 200 && (r.srv.pending.length || timers().length); i++) {
        await settle(1);
        if (r.srv.pending.length) r.srv.pending[0].answer();
        else if (timers().length) fireTimer(timers()[0]);
      }
      await settle(1);
      check(!W.unhandled.length, () => `an error was not handled: ${W.unhandled.map((e: any) => e?.message ?? e)}`, "an error was not handled");
      if (r.error) {
        check(fatal || aborted || r.failSource, () => `the upload failed: ${r.error.stack}`, "an upload failed");
        if (aborted && !fatal && !r.failSource) check(r.error.message === "enough", () => `aborting gave ${r.error.message}`, "aborting does not give its reason");
        r.verifyProgress(false);
      } else {
        check(!fatal && !r.failSource, "an upload that failed succeeded");
        r.verify();
      }
      ctl.outcome(r.events.length + (r.error?.message ?? "ok") + ctl.log.join());
    },
  };
}

export default {
  id: "F01",
  level: "model_checking",
  rule: "every listed size, kind of source and chunk size, every way to cut a stream of up to 10 half-chunks; every order of answers, pieces of the source, time, failures and abortion within the deviation budget; non-trivial when the job or the sequence of events is new",
  assumptions: ["the server puts files together from their parts as https://core.telegram.org/api/files describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const K = 1024;
    const around = (n: number) => [n - 17, n - 16, n - 15, n - 1, n, n + 1, n + 15, n + 16, n + 17].filter((x) => x > 0);
    const small = [...new Set([0, 1, 2, 15, 16, 17, 31, 32, 33, ...around(K), ...around(2 * K), ...around(5 * K), ...around(8 * K), ...around(9 * K)])];
    const kinds: Kind[] = ["buffer", "view", "stream", "iterable", "async iterable", "data url"];
    const list: Scenario[] = [
      sizes("sizes", () => kinds.flatMap((kind) => small.flatMap((size) => [false, true].map((encrypt) => ({ kind, size, encrypt, chunkSize: K, progress: true })).concat()))),
      sizes("pools and chunks", () => kinds.slice(0, 3).flatMap((kind) => [1, 2, 4, 8].flatMap((pool) => [K, 2 * K, 3 * K, 7 * K].flatMap((chunkSize) => [20000, 21504, 16384].map((size) => ({ kind, size, chunkSize, pool, fileName: "a b.txt" })))))),
      sizes("ways to cut a stream", () => (["stream", "async iterable"] as const).flatMap((kind) => compositions(tier === "thorough" ? 11 : 9).map((c) => ({ kind, size: c.reduce((a, b) => a + b, 0) * 512, cuts: c.map((n) => n * 512), chunkSize: K, progress: true, fileSize: c.length % 2 === 0 })))),
      sizes("ways to cut an encrypted stream", () => compositions(7).flatMap((c) => [0, 1, 5].map((odd) => ({ kind: "stream" as const, size: c.reduce((a, b) => a + b, 0) * 512 + odd, cuts: [...c.map((n) => n * 512), odd].filter((_, i, l) => i < l.length - 1 || odd), chunkSize: K, encrypt: true })))),
      sizes("pieces of odd sizes", () => [[1, 1023], [1, 1024], [1023, 2], [0, 5, 0, 1024, 0], [3000, 0, 72], [1, 1, 1, 1], [4096, 1], [1, 4096], [2047, 2, 2047]].flatMap((cuts) => [false, true].map((encrypt) => ({ kind: "stream" as const, size: cuts.reduce((a, b) => a + b, 0), cuts, chunkSize: K, encrypt, progress: true })))),
      ...[10 * K * K - 1, 10 * K * K, 10 * K * K + 1, 10 * K * K + 512 * K].map((size) => sizes(`big files of ${size}`, () => [{ kind: "buffer", size }, { kind: "stream", size, cuts: [size - 5, 5] }, { kind: "view", size, encrypt: true, progress: true, pool: 4 }])),
    ];
    const s = (name: string, job: Job, acts: string, budget: number) => list.push(schedules(name, job, acts, budget + d));
    for (const kind of ["buffer", "stream"] as const) {
      const cuts = kind === "stream" ? [700, 700, 1024, 2048, 1500] : undefined;
      const size = cuts ? 5972 : 5000;
      s(`${kind}: orders`, { kind, size, cuts, chunkSize: K, progress: true }, kind === "stream" ? "slow" : "order", 4);
      s(`${kind}: failures`, { kind, size, cuts, chunkSize: K, progress: true }, "fail", 3);
      s(`${kind}: fatal failures`, { kind, size, cuts, chunkSize: K, progress: true, pool: 2 }, kind === "stream" ? "fatal slow" : "fatal", 3);
      s(`${kind}: aborted`, { kind, size, cuts, chunkSize: K, progress: true }, kind === "stream" ? "abort fail slow" : "abort fail", 3);
      s(`${kind}: encrypted`, { kind, size, cuts, chunkSize: K, encrypt: true }, "fail abort", 3);
    }
    s("stream: failing source", { kind: "stream", size: 5972, cuts: [700, 700, 1024, 2048, 1500], chunkSize: K, progress: true }, "source slow", 3);
    s("big file: orders", { kind: "buffer", size: 10 * K * K + 1, chunkSize: 512 * K, pool: 2 }, "fail", 1);
    return list;
  },
} satisfies CheckDef;
