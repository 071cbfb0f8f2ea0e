// A persistent storage of the harness: what has been written survives the end of the
// client that wrote it. The explorer decides which write is the last one of a run and
// which operations take long.
// deno-lint-ignore-file no-explicit-any
import type { GetManyFilter, Storage, StorageKeyPart } from "/repo/storage/0_storage.ts";

type Key = readonly StorageKeyPart[];
const rank = (v: StorageKeyPart) => typeof v === "string" ? 0 : typeof v === "number" ? 1 : 2;
function comparePart(a: StorageKeyPart, b: StorageKeyPart) {
  if (rank(a) !== rank(b)) return rank(a) - rank(b);
  return a < b ? -1 : a > b ? 1 : 0;
}
export function compareKeys(a: Key, b: Key) {
  for (let i = 0; i < Math.min(a.length, b.length); i++) {
    const c = comparePart(a[i], b[i]);
    if (c) return c;
  }
  return a.length - b.length;
}
export const isPrefix = (p: Key, k: Key) => p.length <= k.length && p.every((x, i) => comparePart(x, k[i]) === 0);

/** What is on the disk. */
export class Disk {
  entries: [Key, unknown][] = [];
  writes = 0;
  find(key: Key): [number, boolean] {
    let lo = 0, hi = this.entries.length;
    while (lo < hi) {
      const mid = (lo + hi) >> 1;
      if (compareKeys(this.entries[mid][0], key) < 0) lo = mid + 1;
      else hi = mid;
    }
    return [lo, lo < this.entries.length && compareKeys(this.entries[lo][0], key) === 0];
  }
  get(key: Key): unknown {
    const [i, found] = this.find(key);
    return found ? structuredClone(this.entries[i][1]) : null;
  }
  set(key: Key, value: unknown) {
    this.writes++;
    const [i, found] = this.find(key);
    if (value === null || value === undefined) {
      if (found) this.entries.splice(i, 1);
    } else if (found) this.entries[i] = [[...key], structuredClone(value)];
    else this.entries.splice(i, 0, [[...key], structuredClone(value)]);
  }
  select(filter: GetManyFilter, params: { limit?: number; reverse?: boolean } = {}): [Key, unknown][] {
    let l = this.entries.filter(([k]) => "prefix" in filter ? isPrefix(filter.prefix, k) : compareKeys(k, filter.start) >= 0 && compareKeys(k, filter.end) <= 0);
    if (params.reverse) l = l.reverse();
    if (params.limit !== undefined) l = l.slice(0, params.limit);
    return l.map(([k, v]) => [[...k], structuredClone(v)]);
  }
}

/** One run's view of a disk. */
export class ModelStorage implements Storage {
  dead = false;
  constructor(
    public disk: Disk,
    /** called before each operation; a promise delays it, and `dead` can be set */
    public gate: (op: "set" | "incr" | "get" | "getMany", key: Key) => void | Promise<void> = () => {},
    public serialize = true,
    public files = false,
  ) {}
  get mustSerialize() {
    return this.serialize;
  }
  get supportsFiles() {
    return this.files;
  }
  get isMemory() {
    return false;
  }
  initialize() {}
  close() {}
  branch(id: string): Storage {
    const b = new BranchStorage(this, id);
    return b;
  }
  async #enter(op: "set" | "incr" | "get" | "getMany", key: Key) {
    if (!this.dead) {
      const p = this.gate(op, key);
      if (p) await p;
    }
    if (this.dead) await new Promise<never>(() => {});
  }
  async get<T>(key: Key): Promise<T | null> {
    await this.#enter("get", key);
    return this.disk.get(key) as T | null;
  }
  async set(key: Key, value: unknown) {
    await this.#enter("set", key);
    this.disk.set(key, value);
  }
  async incr(key: Key, by: number) {
    await this.#enter("incr", key);
    this.disk.set(key, ((this.disk.get(key) as number | null) ?? 0) + by);
  }
  async getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Promise<AsyncGenerator<[Key, T]>> {
    await this.#enter("getMany", "prefix" in filter ? filter.prefix : filter.start);
    const l = this.disk.select(filter, params);
    return (async function* () {
      for (const x of l) yield x as [Key, T];
    })();
  }
}
class BranchStorage implements Storage {
  constructor(public parent: ModelStorage, public id: string) {}
  get mustSerialize() {
    return this.parent.mustSerialize;
  }
  get supportsFiles() {
    return this.parent.supportsFiles;
  }
  get isMemory() {
    return false;
  }
  initialize() {}
  close() {}
  branch(id: string): Storage {
    return new BranchStorage(this.parent, `${this.id}/${id}`);
  }
  #k = (key: Key): Key => [`branch ${this.id}`, ...key];
  get<T>(key: Key) {
    return this.parent.get<T>(this.#k(key));
  }
  set(key: Key, value: unknown) {
    return this.parent.set(this.#k(key), value);
  }
  incr(key: Key, by: number) {
    return this.parent.incr(this.#k(key), by);
  }
  async getMany<T>(filter: GetManyFilter, params?: any) {
    const g = await this.parent.getMany<T>("prefix" in filter ? { prefix: this.#k(filter.prefix) } : { start: this.#k(filter.start), end: this.#k(filter.end) }, params);
    return (async function* () {
      for await (const [k, v] of g) yield [k.slice(1), v] as [Key, T];
    })();
  }
}
