// The two ends of a worker in one thread: real ClientWorker and real /repo/worker.ts,
// joined by first-in-first-out channels the explorer delivers from.
// deno-lint-ignore-file no-explicit-any
import { check, fail } from "./explore.ts";
import "./world.ts";

let onMessage: ((e: any) => void) | null = null, onConnect: ((e: any) => void) | null = null;
let bus: Bus | null = null;
{
  const g = globalThis as any;
  const original = g.addEventListener;
  g.addEventListener = (type: string, f: any) => {
    if (type === "message") onMessage = f;
    else if (type === "connect") onConnect = f;
    else original.call(g, type, f);
  };
  g.postMessage = undefined;
  await import("/repo/worker.ts");
  g.addEventListener = original;
}

let serial = 0;
export class Bus {
  toWorker: any[] = [];
  toParent: any[] = [];
  /** deliver everything as soon as possible */
  auto = false;
  /** changes messages as they arrive in the worker */
  filter: (m: any) => any = (m) => m;
  #listeners: [string, (e: any) => void][] = [];
  #port: { onMessage: ((e: any) => void)[]; started: boolean } | null = null;
  #serial = ++serial;
  /** What the application's thread has: a Worker, or a port of a SharedWorker. */
  worker: any = {
    postMessage: (m: any, transfer: any) => {
      this.toWorker.push(structuredClone(m, { transfer: Array.isArray(transfer) ? transfer : transfer?.transfer ?? [] }));
      this.#later();
    },
    addEventListener: (type: string, f: any) => this.#listeners.push([type, f]),
    removeEventListener: () => {},
    start: () => {},
  };
  constructor(shared: boolean) {
    bus = this;
    const g = globalThis as any;
    const post = (m: any) => {
      m = structuredClone(m);
      if (bus !== this) return;
      this.toParent.push(m);
      this.#later();
    };
    if (shared) {
      g.postMessage = undefined;
      this.#port = { onMessage: [], started: false };
      check(onConnect, "the worker does not listen for connections");
      onConnect({
        ports: [{
          addEventListener: (type: string, f: any) => type === "message" && this.#port!.onMessage.push(f),
          start: () => (this.#port!.started = true),
          postMessage: post,
        }],
      });
    } else g.postMessage = post;
    Object.defineProperty(this.worker, "onmessage", { set: (f) => this.#listeners.push(["message", f]) });
  }
  /** Identifiers stay different for the whole process: the worker lives on. */
  id(name: string) {
    return `${name}#${this.#serial}`;
  }
  #scheduled = false;
  #later() {
    if (!this.auto || this.#scheduled) return;
    this.#scheduled = true;
    queueMicrotask(() => {
      this.#scheduled = false;
      for (let i = 0; this.toWorker.length || this.toParent.length; i++) {
        if (i > 10000) fail("the two sides of the worker send messages without end");
        if (this.toWorker.length) this.deliverToWorker();
        if (this.toParent.length) this.deliverToParent();
      }
    });
  }
  deliverToWorker() {
    const data = this.filter(this.toWorker.shift());
    if (this.#port) {
      check(this.#port.started && this.#port.onMessage.length, "the worker does not listen on its port");
      this.#port.onMessage.forEach((f) => f({ data }));
    } else {
      check(onMessage, "the worker does not listen for messages");
      onMessage({ data });
    }
  }
  deliverToParent() {
    const data = this.toParent.shift();
    this.emit("message", { data });
  }
  emit(type: string, event: any) {
    for (const [t, f] of this.#listeners) if (t === type) f(event);
  }
}
