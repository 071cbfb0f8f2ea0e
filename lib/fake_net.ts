// Stands in for node:net in the .node.ts connections: sockets handed to lib/streams.ts.
// deno-lint-ignore-file no-explicit-any
type Fn = (...a: any[]) => void;
export const hooks: { created: ((s: Socket) => void) | null } = { created: null };
export class Socket {
  #on = new Map<string, { fn: Fn; once: boolean }[]>();
  readyState = "closed";
  target: { port: number; host: string } | null = null;
  destroyed = false;
  onWrite: ((p: Uint8Array, cb: Fn) => void) | null = null;
  onDestroy: (() => void) | null = null;
  on(n: string, fn: Fn) {
    (this.#on.get(n) ?? this.#on.set(n, []).get(n)!).push({ fn, once: false });
    return this;
  }
  once(n: string, fn: Fn) {
    (this.#on.get(n) ?? this.#on.set(n, []).get(n)!).push({ fn, once: true });
    return this;
  }
  off(n: string, fn: Fn) {
    const l = this.#on.get(n) ?? [];
    const i = l.findIndex((x) => x.fn === fn);
    if (i >= 0) l.splice(i, 1);
    return this;
  }
  removeListener(n: string, fn: Fn) {
    return this.off(n, fn);
  }
  emit(n: string, ...a: any[]) {
    const l = (this.#on.get(n) ?? []).slice();
    if (n === "error" && l.length === 0) throw a[0];
    for (const x of l) {
      if (x.once) this.off(n, x.fn);
      x.fn(...a);
    }
  }
  connect(port: number, host: string) {
    this.target = { port, host };
    this.readyState = "opening";
    hooks.created?.(this);
    return this;
  }
  setNoDelay() {
    return this;
  }
  setKeepAlive() {
    return this;
  }
  write(p: Uint8Array, cb: Fn = () => {}) {
    if (this.destroyed || !this.onWrite) {
      queueMicrotask(() => cb(Object.assign(new Error("Cannot call write after a stream was destroyed"), { code: "ERR_STREAM_DESTROYED" })));
      return false;
    }
    this.onWrite(p.slice(), cb);
    return true;
  }
  destroy() {
    if (this.destroyed) return this;
    this.destroyed = true;
    this.readyState = "closed";
    this.onDestroy?.();
    return this;
  }
  end() {
    return this.destroy();
  }
}
