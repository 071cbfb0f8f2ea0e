// A model of the file servers: stores parts of uploads, serves parts of files.
// deno-lint-ignore-file no-explicit-any
import { check, type Ctl, fail } from "./explore.ts";
import { same } from "./tl.ts";
import { igeDec, igeEnc } from "./mt.ts";
import { constructTelegramError } from "/repo/4_errors.ts";

export { igeDec, igeEnc };
export interface Call {
  q: any;
  params: any;
  label: string;
  answer: () => void;
  error: (e: unknown) => void;
}
export const telegramError = (code: number, message: string, q: any) => constructTelegramError({ _: "rpc_error", error_code: code, error_message: message } as any, q);

export interface Upload {
  parts: Map<number, Uint8Array>;
  big: boolean | null;
  totals: Map<number, number>;
}
export class FileServer {
  pending: Call[] = [];
  uploads = new Map<bigint, Upload>();
  requests = 0;
  constructor(public ctl: Ctl, public serve: (q: any, params: any) => any = (q) => this.save(q)) {}
  invoke(q: any, params: any): Promise<any> {
    this.requests++;
    q = structuredClone(q);
    return new Promise((resolve, reject) => {
      const label = q._.startsWith("upload.get") ? `get ${q.offset}+${q.limit}` : `save #${q.file_part}`;
      const done = (f: () => void) => {
        const i = this.pending.indexOf(call);
        if (i >= 0) this.pending.splice(i, 1), f();
      };
      const call: Call = { q, params, label, answer: () => done(() => resolve(this.serve(q, params))), error: (e) => done(() => reject(e)) };
      this.pending.push(call);
    });
  }
  save(q: any): boolean {
    if (q._ !== "upload.saveFilePart" && q._ !== "upload.saveBigFilePart") fail(`unexpected request ${q._}`);
    const big = q._ === "upload.saveBigFilePart";
    const u: Upload = this.uploads.get(q.file_id) ?? { parts: new Map(), big: null, totals: new Map() };
    this.uploads.set(q.file_id, u);
    check(u.big === null || u.big === big, "parts of one file are saved both as big and small ones");
    u.big = big;
    const before = u.parts.get(q.file_part);
    check(!before || same(before, q.bytes), `part ${q.file_part} is saved twice with different contents`, "a part is saved twice with different contents");
    u.parts.set(q.file_part, q.bytes);
    if (big) u.totals.set(q.file_part, q.file_total_parts);
    return true;
  }
  /** Puts a finished upload together the way Telegram does. */
  assemble(file: any, chunkSize: number): Uint8Array {
    const u = this.uploads.get(file.id);
    check(u, "the file was not uploaded");
    const big = /Big/.test(file._);
    check(u.big === big, () => `a ${file._} made of ${u.big ? "big" : "small"} parts`, "the parts do not match the kind of the file");
    check(u.parts.size === file.parts, () => `${u.parts.size} parts were saved, ${file.parts} announced`, "the number of parts is wrong");
    const l: Uint8Array[] = [];
    for (let i = 0; i < file.parts; i++) {
      const p = u.parts.get(i);
      check(p, () => `part ${i} is missing`, "a part is missing");
      check(p.length > 0 && (i === file.parts - 1 ? p.length <= chunkSize : p.length === chunkSize), () => `part ${i} of ${file.parts} has ${p.length} bytes`, "a part has a wrong size");
      if (big) {
        const t = u.totals.get(i)!;
        check(t === file.parts || (t === -1 && i < file.parts - 1), () => `part ${i} announced ${t} of ${file.parts} parts`, "a part announces a wrong total");
      }
      l.push(p);
    }
    const size = l.reduce((n, p) => n + p.length, 0);
    const r = new Uint8Array(size);
    let o = 0;
    for (const p of l) r.set(p, o), o += p.length;
    return r;
  }
}
/** A file whose every byte tells its place. */
export function content(size: number, salt = 1): Uint8Array<ArrayBuffer> {
  const b = new Uint8Array(size);
  let x = salt * 2654435761 >>> 0 || 1;
  for (let i = 0; i < size; i++) {
    x ^= x << 13, x ^= x >>> 17, x ^= x << 5;
    b[i] = x;
  }
  return b;
}
