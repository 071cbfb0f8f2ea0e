// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";
import { settle } from "../lib/rpc.ts";
import { W } from "../lib/world.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";

/** A cell of the account's data: what has been put there, and when which value counted. */
interface Cell {
  name: string;
  values: (number | null)[];
  /** index into values of the oldest value that may be on the disk */
  durable: number;
  put(s: StorageOperations, v: number): void | Promise<void>;
  read(s: StorageOperations): Promise<number | null>;
  sync?(s: StorageOperations): number | null;
}
const cells = (): Cell[] => [
  { name: "channel 1", values: [null], durable: 0, put: (s, v) => s.channelPts.set([1n], v), read: (s) => s.channelPts.get([1n]), sync: (s) => s.channelPts.getSync([1n]) },
  { name: "user 1", values: [null], durable: 0, put: (s, v) => s.setPeer2({ id: 1, type: "private", title: `${v}` } as any, BigInt(v)), read: async (s) => Number((await s.peers.get([1]))?.[1] ?? 0n) || null },
  { name: "the account", values: [null], durable: 0, put: (s, v) => s.auth.set({ apiId: v, authKey: new Uint8Array(256).fill(v), dc: "2", isBot: false, userId: v }), read: async (s) => (await s.auth.get())?.apiId ?? null },
  { name: "channel 2", values: [null], durable: 0, put: (s, v) => s.channelPts.set([2n], v), read: (s) => s.channelPts.get([2n]) },
];
interface Held {
  op: string;
  label: string;
  go: () => void;
  fail: () => void;
}
interface Running {
  label: string;
  done: boolean;
}

class Run {
  disk = new Disk();
  held: Held[] = [];
  running: Running[] = [];
  storage!: ModelStorage;
  s!: StorageOperations;
  next = 1;
  resetting = 0;
  resets = 0;
  unclean = false;
  constructor(public ctl: Ctl, public cells: Cell[], public allowFailures: boolean) {}
  open() {
    this.storage = new ModelStorage(this.disk, (op, key) => this.#gate(op, key));
    this.s = new StorageOperations(this.storage);
  }
  #gate(op: string, key: readonly unknown[]): void | Promise<void> {
    const label = `${op} ${key.map(String).join("/")}`;
    const k = this.ctl.choose(this.allowFailures && op === "set" ? 3 : 2, `speed of ${label}`);
    if (k === 0) return;
    if (k === 2) {
      this.ctl.note(`${label} fails`);
      return Promise.reject(new Error("disk error"));
    }
    this.ctl.note(`${label} takes long`);
    return new Promise((go, fail) => this.held.push({ op, label, go, fail: () => fail(new Error("disk error")) }));
  }
  release(i: number, failing = false) {
    const [h] = this.held.splice(i, 1);
    this.ctl.step(`${h.label} ${failing ? "fails" : "is done"}`);
    if (failing) h.fail();
    else h.go();
  }
  put(c: Cell) {
    const v = this.next++;
    this.ctl.step(`put ${v} into ${c.name}`);
    c.values.push(v);
    return c.put(this.s, v);
  }
  get(c: Cell) {
    // until a reset is complete the value before it may be seen
    const from = c.values.length - (this.resetting ? 2 : 1);
    const r: Running = { label: `get ${c.name}`, done: false };
    this.running.push(r);
    this.ctl.step(r.label);
    // a reset while the read is running: either side of it
    c.read(this.s).then((v) => {
      r.done = true;
      const allowed = c.values.slice(from);
      this.ctl.note(`${r.label} gives ${v}`);
      if (!allowed.includes(v) && !this.unclean) this.bad = [`reading ${c.name} gave ${v} although it has been ${allowed.join(", then ")} since the read began`, "a read gave an outdated value"];
    }, (err) => {
      r.done = true;
      this.bad = [`reading ${c.name} failed: ${err}`, "a read failed"];
    });
  }
  bad: [string, string] | null = null;
  commit() {
    const r: Running = { label: "commit", done: false };
    this.running.push(r);
    this.ctl.step("commit");
    const at = this.cells.map((c) => c.values.length - 1);
    const resets = this.resets;
    this.s.commit(true).then(() => {
      r.done = true;
      this.ctl.note("committed");
      if (this.resets !== resets) return;
      this.cells.forEach((c, i) => c.durable = Math.max(c.durable, at[i]));
    }, () => {
      r.done = true;
      this.ctl.note("the commit failed");
    });
  }
  reset() {
    const r: Running = { label: "reset", done: false };
    this.running.push(r);
    this.ctl.step("reset");
    this.resetting++;
    this.resets++;
    const at = this.cells.map((c) => c.values.length);
    for (const c of this.cells) c.values.push(null);
    this.s.reset().then(() => {
      r.done = true;
      this.resetting--;
      this.ctl.note("reset done");
      this.cells.forEach((c, i) => c.durable = Math.max(c.durable, at[i]));
    }, () => {
      r.done = true;
      this.resetting--;
      this.unclean = true;
      this.ctl.note("the reset failed");
    });
  }
  async settle() {
    await settle();
    if (this.bad) check(false, this.bad[0], this.bad[1]);
  }
  async drain() {
    while (this.held.length) {
      this.release(0);
      await this.settle();
    }
    check(this.running.every((r) => r.done), () => `${this.running.find((r) => !r.done)!.label} never ends`, "an operation never ends");
  }
  /** What a later start of the client would find. */
  async inspect(what: string, exact: boolean) {
    const s = new StorageOperations(new ModelStorage(this.disk));
    for (const c of this.cells) {
      const v = await c.read(s);
      const allowed = exact ? c.values.slice(-1) : c.values.slice(c.durable);
      check(allowed.includes(v), () => `${what}, ${c.name} is ${v} after a restart; it should be ${[...new Set(allowed)].join(" or ")}`, `wrong value after a restart: ${what.replace(/\d+/g, "N")}`);
    }
  }
}
interface Shape {
  name: string;
  depth: number;
  budget: number;
  cells: number[];
  failures?: boolean;
  reset?: boolean;
  /** values on the disk before */
  before?: boolean;
}
const shape = (x: Shape): Scenario => ({
  name: x.name,
  budget: x.budget,
  shard: true,
  async run(ctl) {
    const all = cells();
    const run = new Run(ctl, x.cells.map((i) => all[i]), !!x.failures);
    if (x.before) {
      const s = new StorageOperations(new ModelStorage(run.disk));
      for (const c of run.cells) {
        c.values.push(run.next);
        c.durable = 1;
        await c.put(s, run.next++);
      }
      await s.commit(true);
    }
    run.open();
    for (let i = 0; i < x.depth; i++) {
      const menu: [string, () => void | Promise<void>][] = [["end", () => {}]];
      run.cells.forEach((c) => {
        if (!run.resetting) menu.push([`put ${c.name}`, () => void run.put(c)]);
        menu.push([`get ${c.name}`, () => run.get(c)]);
      });
      menu.push(["commit", () => run.commit()]);
      if (x.reset && !run.resetting) menu.push(["reset", () => run.reset()]);
      run.held.forEach((_, k) => menu.push([`release ${k}`, () => run.release(k)]));
      const k = ctl.free(menu.length, "step");
      if (k === 0) break;
      await menu[k][1]();
      await run.settle();
      for (const c of run.cells) {
        const v = c.sync?.(run.s);
        check(run.unclean || v === undefined || v === null || v === c.values.at(-1) || run.resetting, () => `${c.name} reads ${v} at once, not ${c.values.at(-1)}`, "a synchronous read gave an outdated value");
      }
    }
    ctl.state([run.cells.map((c) => `${c.values.length}:${c.durable}`), run.disk.entries.map(([k, v]) => k.join("/") + JSON.stringify(v, (_, x) => typeof x === "bigint" ? `${x}` : x instanceof Uint8Array ? x[0] : x)), run.held.map((h) => h.label)].join(";"));
    // the client may stop here
    if (!run.unclean) await run.inspect("with the client stopped at once", false);
    await run.drain();
    run.storage.gate = () => {};
    if (!run.unclean) {
      for (const c of run.cells) {
        const v = await c.read(run.s);
        check(v === c.values.at(-1), () => `${c.name} reads ${v} in the end, not ${c.values.at(-1)}`, "a read gave an outdated value in the end");
      }
      await run.s.commit(true);
      await run.inspect(run.allowFailures ? "after a commit that followed failed ones" : "after a commit", true);
      for (const c of run.cells) {
        const v = await c.read(run.s);
        check(v === c.values.at(-1), () => `${c.name} reads ${v} after the commit, not ${c.values.at(-1)}`, "a read gave an outdated value after a commit");
      }
    }
  },
});

/** More entries than are kept in memory. */
const many = (n: number): Scenario => ({
  name: "many entries",
  async run(ctl) {
    const disk = new Disk();
    const storage = new ModelStorage(disk);
    const s = new StorageOperations(storage);
    const rounds = 1 + ctl.free(2, "rounds"), commitFirst = ctl.free(2, "commit before"), slow = ctl.free(2, "read while committing");
    const value = (i: number, r: number) => i * 10 + r;
    for (let r = 0; r < rounds; r++) {
      if (r && commitFirst) await s.commit(true);
      for (let i = 0; i < n; i++) s.channelPts.set([BigInt(i)], value(i, r));
      ctl.step(`put ${n} values`);
    }
    const sample = [0, 1, 2, n >> 1, n - 2, n - 1];
    const verify = async (s: StorageOperations, when: string) => {
      for (const i of sample) {
        const v = await s.channelPts.get([BigInt(i)]);
        check(v === value(i, rounds - 1), () => `entry ${i} of ${n} reads ${v} ${when}, not ${value(i, rounds - 1)}`, `one of many entries is wrong ${when}`);
      }
    };
    if (slow) {
      let go!: () => void;
      const wait = new Promise<void>((r) => go = r);
      storage.gate = (op) => op === "set" ? wait : undefined;
      const c = s.commit(true);
      await verify(s, "while committing");
      go();
      await c;
    } else {
      await verify(s, "before the commit");
    }
    await s.commit(true);
    await verify(s, "after the commit");
    await verify(new StorageOperations(new ModelStorage(disk)), "after a restart");
    ctl.state(`${rounds} ${commitFirst} ${slow}`);
  },
});

/** commit() without force: after the first one, every five minutes or thousand changes. */
const periodic: Scenario = {
  name: "periodic commits",
  async run(ctl) {
    const disk = new Disk();
    const s = new StorageOperations(new ModelStorage(disk));
    const wait = ctl.pick([0, 299_999, 300_000, 400_000], "wait");
    const n = ctl.pick([1, 999, 1000, 1001], "changes");
    s.channelPts.set([1n], 1);
    await s.commit();
    const first = await new StorageOperations(new ModelStorage(disk)).channelPts.get([1n]);
    check(first === 1, "the first periodic commit did not write", "the first periodic commit did not write");
    W.now += wait;
    for (let i = 0; i < n; i++) s.channelPts.set([BigInt(i)], 2);
    ctl.step(`${n} changes, ${wait} ms`);
    await s.commit();
    const v = await new StorageOperations(new ModelStorage(disk)).channelPts.get([0n]);
    if (wait >= 300_000 || n >= 1000) check(v === 2, `${n} changes were not written after ${wait} ms`, "a due periodic commit did not write");
    W.now += 300_000;
    s.channelPts.set([0n], 3);
    await s.commit();
    check(await new StorageOperations(new ModelStorage(disk)).channelPts.get([0n]) === 3, "changes were not written after five minutes", "a due periodic commit did not write");
    ctl.state(`${wait} ${n}`);
  },
};

export default {
  id: "S03",
  level: "model_checking",
  rule: "Sequences of up to five (thorough: six) puts, reads, commits, resets and completions of storage operations on the account's data, each storage operation immediate, slow or failing, up to the deviation budget; the client may stop after every step. Non-trivial when a storage operation is slow, fails or overlaps another.",
  assumptions: ["A storage operation takes effect at once when it completes, or not at all."],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    return [
      shape({ name: "one cell", depth: 6 + d, budget: 2 + d, cells: [0] }),
      shape({ name: "one cell, with resets", depth: 5 + d, budget: 2 + d, cells: [0], reset: true, before: true }),
      shape({ name: "one cell, with failures", depth: 6 + d, budget: 2 + d, cells: [0], failures: true }),
      shape({ name: "the account", depth: 5 + d, budget: 2 + d, cells: [2], reset: true, failures: true }),
      shape({ name: "two kinds", depth: 5, budget: 2 + d, cells: [1, 2], before: true }),
      shape({ name: "two entries", depth: 5, budget: 2 + d, cells: [0, 3], failures: true }),
      many(20_010),
      periodic,
    ];
  },
} satisfies CheckDef;
