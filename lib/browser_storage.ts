// The storages of other runtimes, in memory: Web Storage (localStorage, sessionStorage),
// node-localstorage and IndexedDB, with the parts of their specifications MTKruto uses.
// deno-lint-ignore-file no-explicit-any
import { setImmediate } from "node:timers";

// --- Web Storage -----------------------------------------------------------
export class WebStorage {
  items = new Map<string, string>();
  getItem(k: string) {
    return this.items.get(String(k)) ?? null;
  }
  setItem(k: string, v: string) {
    this.items.set(String(k), String(v));
  }
  removeItem(k: string) {
    this.items.delete(String(k));
  }
  clear() {
    this.items.clear();
  }
  key(i: number) {
    return [...this.items.keys()][i] ?? null;
  }
  get length() {
    return this.items.size;
  }
}
/** An object whose own properties are the stored items, as the Storage interface has it. */
export function webStorage(s = new WebStorage()): WebStorage {
  return new Proxy(s, {
    get: (t, k) => {
      const v = (t as any)[k];
      if (v !== undefined) return typeof v === "function" ? v.bind(t) : v;
      return typeof k === "string" ? t.items.get(k) : undefined;
    },
    set: (t, k, v) => (t.setItem(String(k), v), true),
    has: (t, k) => k in t || t.items.has(String(k)),
    deleteProperty: (t, k) => (t.removeItem(String(k)), true),
    ownKeys: (t) => [...t.items.keys()],
    getOwnPropertyDescriptor: (t, k) => typeof k === "string" && t.items.has(k) ? { value: t.items.get(k), enumerable: true, configurable: true, writable: true } : undefined,
  });
}

// --- IndexedDB -------------------------------------------------------------
type IKey = number | string | Date | IKey[];
const rank = (k: IKey) => typeof k === "number" ? 0 : k instanceof Date ? 1 : typeof k === "string" ? 2 : 4;
function validate(k: any): IKey {
  if (typeof k === "number" && !Number.isNaN(k)) return k;
  if (typeof k === "string") return k;
  if (k instanceof Date && !Number.isNaN(k.getTime())) return k;
  if (Array.isArray(k)) return k.map(validate);
  throw new DOMException("The parameter is not a valid key.", "DataError");
}
function cmp(a: IKey, b: IKey): number {
  const r = rank(a) - rank(b);
  if (r) return r < 0 ? -1 : 1;
  if (Array.isArray(a)) {
    const bb = b as IKey[];
    for (let i = 0; i < Math.min(a.length, bb.length); i++) {
      const c = cmp(a[i], bb[i]);
      if (c) return c;
    }
    return Math.sign(a.length - bb.length);
  }
  const x: any = a instanceof Date ? a.getTime() : a, y: any = b instanceof Date ? (b as Date).getTime() : b;
  return x < y ? -1 : x > y ? 1 : 0;
}
export class KeyRange {
  constructor(public lower: IKey | undefined, public upper: IKey | undefined, public lowerOpen: boolean, public upperOpen: boolean) {}
  static bound(l: any, u: any, lo = false, uo = false) {
    l = validate(l), u = validate(u);
    const c = cmp(l, u);
    if (c > 0 || (c === 0 && (lo || uo))) throw new DOMException("The lower key is greater than the upper key.", "DataError");
    return new KeyRange(l, u, lo, uo);
  }
  static lowerBound(l: any, open = false) {
    return new KeyRange(validate(l), undefined, open, false);
  }
  static upperBound(u: any, open = false) {
    return new KeyRange(undefined, validate(u), false, open);
  }
  static only(k: any) {
    return new KeyRange(validate(k), validate(k), false, false);
  }
  includes(k: IKey) {
    if (this.lower !== undefined) {
      const c = cmp(k, this.lower);
      if (c < 0 || (c === 0 && this.lowerOpen)) return false;
    }
    if (this.upper !== undefined) {
      const c = cmp(k, this.upper);
      if (c > 0 || (c === 0 && this.upperOpen)) return false;
    }
    return true;
  }
}
interface Rec {
  key: IKey;
  value: unknown;
}
class Request_ {
  onsuccess: any = null;
  onerror: any = null;
  onupgradeneeded: any = null;
  onblocked: any = null;
  result: any = undefined;
  error: any = null;
}
class Transaction {
  state: "inactive" | "active" | "done" = "active";
  queue: (() => void)[] = [];
  running = false;
  oncomplete: any = null;
  onerror: any = null;
  onabort: any = null;
  constructor(public db: Database, public mode: string) {
    setImmediate(() => this.pump());
  }
  get started() {
    const i = this.db.txs.indexOf(this);
    return this.db.txs.slice(0, i).every((t) => t.mode === "readonly" && this.mode === "readonly");
  }
  /** One task: perform the next request and run its callback. */
  pump() {
    if (this.state === "active") this.state = "inactive";
    if (this.state === "done") return;
    if (!this.started) {
      setImmediate(() => this.pump());
      return;
    }
    const r = this.queue.shift();
    if (!r) {
      this.state = "done";
      this.db.txs.splice(this.db.txs.indexOf(this), 1);
      this.oncomplete?.({});
      return;
    }
    this.state = "active";
    r();
    setImmediate(() => this.pump());
  }
  request(perform: () => any): Request_ {
    if (this.state !== "active") throw new DOMException("The transaction is inactive or finished.", this.state === "done" ? "InvalidStateError" : "TransactionInactiveError");
    const req = new Request_();
    this.queue.push(() => {
      req.result = perform();
      req.onsuccess?.({ target: req });
    });
    return req;
  }
  objectStore(name: string) {
    const records = this.db.stores.get(name);
    if (!records) throw new DOMException("No such object store.", "NotFoundError");
    return new Store(this, records);
  }
}
class Store {
  constructor(public tx: Transaction, public records: Rec[]) {}
  #find(key: IKey) {
    return this.records.findIndex((r) => cmp(r.key, key) === 0);
  }
  #write() {
    if (this.tx.mode === "readonly") throw new DOMException("Read-only transaction.", "ReadOnlyError");
  }
  put(value: unknown, key_: any) {
    this.#write();
    const key = validate(key_), v = structuredClone(value);
    return this.tx.request(() => {
      const i = this.#find(key);
      if (i >= 0) this.records[i].value = v;
      else {
        this.records.push({ key, value: v });
        this.records.sort((a, b) => cmp(a.key, b.key));
      }
      return key;
    });
  }
  delete(key_: any) {
    this.#write();
    const range = key_ instanceof KeyRange ? key_ : KeyRange.only(key_);
    return this.tx.request(() => {
      for (let i = this.records.length - 1; i >= 0; i--) if (range.includes(this.records[i].key)) this.records.splice(i, 1);
    });
  }
  get(key_: any) {
    const range = key_ instanceof KeyRange ? key_ : KeyRange.only(key_);
    return this.tx.request(() => structuredClone(this.records.find((r) => range.includes(r.key))?.value));
  }
  getAllKeys(range?: any, count?: number) {
    return this.tx.request(() => this.#select(range).slice(0, count).map((r) => structuredClone(r.key)));
  }
  getAll(range?: any, count?: number) {
    return this.tx.request(() => this.#select(range).slice(0, count).map((r) => structuredClone(r.value)));
  }
  #select(range: any): Rec[] {
    const r = range === undefined || range === null ? null : range instanceof KeyRange ? range : KeyRange.only(range);
    return this.records.filter((x) => !r || r.includes(x.key));
  }
  #cursor(range: any, direction: string, withValue: boolean) {
    const prev = direction.startsWith("prev");
    let position: IKey | undefined;
    const step = () => {
      let l = this.#select(range);
      if (prev) l = l.reverse();
      const r = l.find((x) => position === undefined || (prev ? cmp(x.key, position) < 0 : cmp(x.key, position) > 0));
      if (!r) return null;
      position = r.key;
      return {
        key: structuredClone(r.key),
        primaryKey: structuredClone(r.key),
        value: withValue ? structuredClone(r.value) : undefined,
        continue: () => {
          if (this.tx.state !== "active") throw new DOMException("The transaction is inactive.", "TransactionInactiveError");
          this.tx.queue.push(() => {
            req.result = step();
            req.onsuccess?.({ target: req });
          });
        },
      };
    };
    const req = this.tx.request(step);
    return req;
  }
  openKeyCursor(range?: any, direction = "next") {
    return this.#cursor(range, direction, false);
  }
  openCursor(range?: any, direction = "next") {
    return this.#cursor(range, direction, true);
  }
}
class Database {
  txs: Transaction[];
  closed = false;
  constructor(public stores: Map<string, Rec[]>, txs: Transaction[]) {
    this.txs = txs;
  }
  createObjectStore(name: string) {
    this.stores.set(name, []);
  }
  transaction(_names: string | string[], mode = "readonly") {
    if (this.closed) throw new DOMException("The database is closing.", "InvalidStateError");
    const t = new Transaction(this, mode);
    this.txs.push(t);
    return t;
  }
  close() {
    this.closed = true;
  }
}
export class IDBFactory_ {
  databases_ = new Map<string, { stores: Map<string, Rec[]>; txs: Transaction[] }>();
  cmp(a: any, b: any) {
    return cmp(validate(a), validate(b));
  }
  open(name: string, _version?: number) {
    const req = new Request_();
    setImmediate(() => {
      let d = this.databases_.get(name);
      const isNew = !d;
      if (!d) this.databases_.set(name, d = { stores: new Map(), txs: [] });
      req.result = new Database(d.stores, d.txs);
      if (isNew) req.onupgradeneeded?.({ target: req });
      req.onsuccess?.({ target: req });
    });
    return req;
  }
}

// --- node-localstorage -----------------------------------------------------
const locations = new Map<string, WebStorage>();
export class NodeLocalStorage {
  constructor(location: string) {
    let s = locations.get(location);
    if (!s) locations.set(location, s = webStorage());
    return s as any;
  }
  static forget() {
    locations.clear();
  }
}
export { NodeLocalStorage as LocalStorage };

/** Put the browser's storages in place, empty. */
export function installBrowser() {
  const g = globalThis as any;
  const set = (name: string, value: unknown) => Object.defineProperty(g, name, { value, configurable: true, writable: true });
  set("localStorage", webStorage());
  set("sessionStorage", webStorage());
  set("indexedDB", new IDBFactory_());
  set("IDBKeyRange", KeyRange);
  locations.clear();
}
