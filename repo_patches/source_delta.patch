From 7c4506a9c89de077087927cc2e0c946b372b7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 001/102] fix: do not leave rejections unhandled when a request
 is rejected while being sent

---
 client/2_client_encrypted.ts   | 2 ++
 session/2_session_encrypted.ts | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..133cdf5 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -339,6 +339,8 @@ export class ClientEncrypted extends ClientAbstract {
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
     const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
+    // might get rejected while it is still being sent
+    drop(sentRequest.promiseWithResolvers.promise);
     await this.#send(function_, (messageId) => {
       this.#L.debug("sending", function_._, "with msg_id", messageId);
       this.#sentRequests.set(messageId, sentRequest);
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..18cf88a 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -642,6 +642,8 @@ export class SessionEncrypted extends Session implements Session {
     const ping_id = getRandomId();
     const call: Mtproto.ping_delay_disconnect = { _: "ping_delay_disconnect", ping_id, disconnect_delay };
     const promiseWithResolvers = Promise.withResolvers<Mtproto.pong>();
+    // might get rejected while it is still being sent
+    drop(promiseWithResolvers.promise);
     await this.send(Mtproto.serializeObject(call), (messageId) => {
       this.#pendingPings.set(messageId, { call, promiseWithResolvers });
       return () => this.#pendingPings.delete(messageId);
-- 
2.43.0


From 4e0d0831cd19d2d37e2c59f8c56eee7ef8fc67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 002/102] fix: handle failures of containers that are reported
 before their send completes

---
 session/2_session_encrypted.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 18cf88a..efb57d0 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -413,6 +413,8 @@ export class SessionEncrypted extends Session implements Session {
           },
         };
         this.#LsendLoop.debug("container msg_id =", message.msg_id, "seqno =", message.seqno);
+        // the server might respond before the send is complete
+        this.#containers.set(message.msg_id, [msg_id, ack.msg_id]);
       }
 
       const payload = await this.#encryptMessage(message);
@@ -428,7 +430,6 @@ export class SessionEncrypted extends Session implements Session {
     if (!(message.body instanceof Uint8Array)) {
       const msg_ids = message.body.messages.map((v) => v.msg_id);
       this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...msg_ids);
-      this.#containers.set(message.msg_id, msg_ids);
     } else {
       this.#LsendLoop.debug("sent message", message.msg_id);
     }
-- 
2.43.0


From 375661bd4f3bc2d140598e6e3c29f64425f56210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 003/102] fix: do not lose or repeat messages whose session or
 connection changes while they are being sent

---
 session/2_session_encrypted.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index efb57d0..86f203f 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -351,6 +351,8 @@ export class SessionEncrypted extends Session implements Session {
     let msg_id: bigint;
     let message: message;
     let unregister: (() => void) | undefined;
+    let isSending = false;
+    const sessionId = this.#id;
 
     try {
       msg_id = this.state.nextMessageId();
@@ -418,15 +420,24 @@ export class SessionEncrypted extends Session implements Session {
       }
 
       const payload = await this.#encryptMessage(message);
+      if (this.#id !== sessionId) {
+        throw new SessionError("The session was invalidated.");
+      }
+      this.#sentMessages.add(msg_id);
+      isSending = true;
       await this.transport.transport.send(payload);
     } catch (err) {
+      if (isSending && !this.#sentMessages.delete(msg_id!)) {
+        // already responded to, or reported as failed
+        pendingMessage.promiseWithResolvers.resolve();
+        return;
+      }
       pendingMessage.promiseWithResolvers.reject(err);
       unregister?.();
       return;
     }
 
     this.#LsendLoop.out(message);
-    this.#sentMessages.add(msg_id);
     if (!(message.body instanceof Uint8Array)) {
       const msg_ids = message.body.messages.map((v) => v.msg_id);
       this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...msg_ids);
-- 
2.43.0


From b735d5fe954723aa97936078fe286bb43d66c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 004/102] fix: forget unconfirmed acknowledgements when pending
 messages are rejected

---
 session/2_session_encrypted.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 86f203f..57c9406 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -169,6 +169,7 @@ export class SessionEncrypted extends Session implements Session {
     this.#sentMessages.clear();
     this.#pendingPings.clear();
     this.#containers.clear();
+    this.#pendingAcks.clear();
   }
 
   #onMessageFailed(id: bigint, reason: unknown) {
-- 
2.43.0


From cf21ba87858cc926653792d060abb1babf691ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 005/102] fix: do not connect when disconnected while
 connecting

---
 client/2_client_encrypted.ts |  1 +
 session/1_session.ts         | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 133cdf5..90e9248 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -206,6 +206,7 @@ export class ClientEncrypted extends ClientAbstract {
 
   override disconnect() {
     super.disconnect();
+    this.#connectPromise = undefined;
     this.#temporaryAuthKeyRefreshLoop.abort();
     this.lastRequest = undefined;
     const error = new ConnectionError("The connection was closed.");
diff --git a/session/1_session.ts b/session/1_session.ts
index 9381bac..530db69 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -19,6 +19,7 @@
  */
 
 import { delay, SECOND } from "../0_deps.ts";
+import { ConnectionError } from "../0_errors.ts";
 import { drop, getLogger, type Logger, Mutex } from "../1_utilities.ts";
 import type { Connection, ConnectionCallback } from "../2_connection.ts";
 import { type DC, type TransportProvider, transportProviderTcp, transportProviderWebSocket } from "../3_transport.ts";
@@ -135,17 +136,27 @@ export abstract class Session {
     return this.transport.connection.isConnected;
   }
 
+  #disconnectCount = 0;
+  #assertNotDisconnectedSince(disconnectCount: number) {
+    if (disconnectCount !== this.#disconnectCount) {
+      throw new ConnectionError("The connection was disconnected.");
+    }
+  }
+
   #connectMutex = new Mutex();
   async connect() {
+    const disconnectCount = this.#disconnectCount;
     const unlock = await this.#connectMutex.lock();
     try {
       if (this.isConnected) {
         this.#resolveConnectionStateChange();
         return;
       }
+      this.#assertNotDisconnectedSince(disconnectCount);
       await this.transport.connection.open();
       try {
         await this.transport.transport.initialize();
+        this.#assertNotDisconnectedSince(disconnectCount);
       } catch (err) {
         if (this.transport.connection.isConnected) {
           try {
@@ -153,6 +164,9 @@ export abstract class Session {
           } catch {
             //
           }
+          if (this.#isDisconnected) {
+            this.transport.connection.stateChangeHandler?.(false);
+          }
         }
         throw err;
       }
@@ -182,6 +196,7 @@ export abstract class Session {
   }
 
   disconnect() {
+    ++this.#disconnectCount;
     this.#isDisconnected = true;
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
-- 
2.43.0


From 8ef860e4671874f2eeb5bb706aa76b1df62c4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 006/102] fix: keep reconnecting when the connection cannot be
 reopened after a session is invalidated

---
 session/1_session.ts           | 10 +++++++++-
 session/2_session_encrypted.ts | 17 +++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/session/1_session.ts b/session/1_session.ts
index 530db69..a9cdb0f 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -104,6 +104,10 @@ export abstract class Session {
       }
       return;
     }
+    await this.reconnect();
+  }
+
+  protected async reconnect() {
     if (this.#isReconnecting) {
       return;
     }
@@ -198,10 +202,14 @@ export abstract class Session {
   disconnect() {
     ++this.#disconnectCount;
     this.#isDisconnected = true;
+    this.closeConnection();
+    this.#resolveConnectionStateChange();
+  }
+
+  protected closeConnection() {
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
     }
-    this.#resolveConnectionStateChange();
   }
 
   abstract send(body: Uint8Array, onMessageId: (messageId: bigint) => () => void): Promise<void>;
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 57c9406..b304d21 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -116,15 +116,17 @@ export class SessionEncrypted extends Session implements Session {
 
   override disconnect(): void {
     super.disconnect();
+    this.#reset();
+    this.#rejectAllPending(new ConnectionError("The connection was disconnected."));
+  }
+
+  #reset() {
     this.state.reset();
     this.#id = getRandomId();
     this.#receiveLoop.abort();
     this.#sendLoop.abort();
     this.#pingLoop.abort();
     this.#awakeSendLoop?.();
-    if (!this.#isInvalidating) {
-      this.#rejectAllPending(new ConnectionError("The connection was disconnected."));
-    }
   }
 
   #assertNotDisconnected() {
@@ -135,14 +137,17 @@ export class SessionEncrypted extends Session implements Session {
 
   async #invalidateSession(reason: string) {
     this.#L.debug("invalidating session because of", reason);
-    this.#id = getRandomId();
-    this.state.reset();
     this.#isInvalidating = true;
     try {
-      this.disconnect();
+      this.closeConnection();
+      this.#reset();
       await this.connect();
     } catch (err) {
       this.#rejectAllPending(err);
+      if (!this.isConnected) {
+        this.transport.connection.stateChangeHandler?.(false);
+      }
+      drop(this.reconnect());
       throw err;
     } finally {
       this.#isInvalidating = false;
-- 
2.43.0


From cea26045b99b469b0bf1d0bd9abc40023eb3e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 007/102] fix: verify the server's answers when creating an
 authorization key

---
 client/0_password.ts     |  2 +-
 client/1_client_plain.ts | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/client/0_password.ts b/client/0_password.ts
index f5eddbc..33329dd 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -48,7 +48,7 @@ export function isSafePrime(primeBytes: Uint8Array, g: number) {
       0x6F, 0x4F, 0xAD, 0xF0, 0x34, 0xB1, 0x04, 0x03, 0x11, 0x9C, 0xD8, 0xE3,
       0xB9, 0x2F, 0xCC, 0x5B,
   ]);
-  if (goodPrime.every((v, i) => v === primeBytes[i])) {
+  if (primeBytes.byteLength === goodPrime.byteLength && goodPrime.every((v, i) => v === primeBytes[i])) {
     if ([3, 4, 5, 7].includes(g)) {
       return true;
     }
diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..07cb417 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -26,6 +26,7 @@ import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_const
 import { PublicKeyError } from "../4_errors.ts";
 import { type SessionParams, SessionPlain } from "../4_session.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
+import { isGoodModExpFirst, isSafePrime } from "./0_password.ts";
 
 const L = getLogger("ClientPlain");
 const LcreateAuthKey = L.branch("createAuthKey");
@@ -67,6 +68,7 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
+        resPq = null;
         LcreateAuthKey.debug("req_pq_multi error:", err);
       }
     }
@@ -141,6 +143,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -155,12 +159,23 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
     const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    const answer = Mtproto.serializeObject(dhInnerData);
+    assert(answerWithHash.byteLength - 20 - answer.byteLength < 16);
+    assertEquals(answerWithHash.slice(0, 20), await sha1(answer));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
+    assert(isSafePrime(dhPrime_, g));
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
+    assert(isGoodModExpFirst(gA, dhPrime));
 
-    const b = getRandomInt(256, false);
-    const gB = modExp(BigInt(g), b, dhPrime);
+    let b: bigint;
+    let gB: bigint;
+    do {
+      b = getRandomInt(256, false);
+      gB = modExp(BigInt(g), b, dhPrime);
+    } while (!isGoodModExpFirst(gB, dhPrime));
 
     const data = Mtproto.serializeObject({
       _: "client_DH_inner_data",
@@ -185,6 +200,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
       encrypted_data: encryptedData,
     });
     assert(Mtproto.is("dh_gen_ok", dhGenOk));
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
     LcreateAuthKey.debug("got dh_gen_ok");
 
     const serverNonceSlice = serverNonce_.subarray(0, 8);
@@ -193,6 +210,10 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
 
+    const authKeyAuxHash = (await sha1(authKey)).subarray(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).subarray(4, 20);
+    assertEquals(dhGenOk.new_nonce_hash1, intFromBytes(newNonceHash1));
+
     LcreateAuthKey.debug("auth key created");
 
     return [authKey, intFromBytes(salt)];
-- 
2.43.0


From 2ea60b749f59439d862cbd81c39a5b5835711124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 008/102] fix: abort the key exchange when disconnected

---
 client/2_client_encrypted.ts | 42 +++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 90e9248..7a5ef1a 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -135,16 +135,26 @@ export class ClientEncrypted extends ClientAbstract {
 
   #connectPromise?: Promise<void>;
   override connect(): Promise<void> {
-    return this.#connectPromise ??= this.#connect().finally(() => this.#connectPromise = undefined);
+    if (this.#connectPromise) {
+      return this.#connectPromise;
+    }
+    const promise = this.#connect().finally(() => {
+      if (this.#connectPromise === promise) {
+        this.#connectPromise = undefined;
+      }
+    });
+    return this.#connectPromise = promise;
   }
 
   async #connect() {
+    const disconnectCount = this.#disconnectCount;
     if (!this.authKey.byteLength) {
       await this.#createAuthKey();
     } else if (this.#isPerfectForwardSecrecyEnabled) {
       this.#L.debug("creating temporary auth key");
       await this.#createAuthKeyInner(true);
     }
+    this.#assertNotDisconnectedSince(disconnectCount);
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
@@ -204,9 +214,22 @@ export class ClientEncrypted extends ClientAbstract {
     this.#temporaryAuthKeyRefreshLoop.start();
   }
 
+  #disconnectCount = 0;
+  #assertNotDisconnectedSince(disconnectCount: number) {
+    if (disconnectCount !== this.#disconnectCount) {
+      throw new ConnectionError("The connection was closed.");
+    }
+  }
+
+  #plainClients = new Set<ClientPlain>();
   override disconnect() {
+    ++this.#disconnectCount;
     super.disconnect();
     this.#connectPromise = undefined;
+    this.#createAuthKeyPromise = undefined;
+    for (const plain of this.#plainClients) {
+      plain.disconnect();
+    }
     this.#temporaryAuthKeyRefreshLoop.abort();
     this.lastRequest = undefined;
     const error = new ConnectionError("The connection was closed.");
@@ -218,18 +241,27 @@ export class ClientEncrypted extends ClientAbstract {
 
   #createAuthKeyPromise?: Promise<unknown>;
   #createAuthKey() {
-    return this.#createAuthKeyPromise ??= (this.#isPerfectForwardSecrecyEnabled ? Promise.all([this.#createAuthKeyInner(false), this.#createAuthKeyInner(true)]) : this.#createAuthKeyInner(false)).finally(() => {
-      this.#createAuthKeyPromise = undefined;
+    if (this.#createAuthKeyPromise) {
+      return this.#createAuthKeyPromise;
+    }
+    const promise = (this.#isPerfectForwardSecrecyEnabled ? Promise.all([this.#createAuthKeyInner(false), this.#createAuthKeyInner(true)]) : this.#createAuthKeyInner(false)).finally(() => {
+      if (this.#createAuthKeyPromise === promise) {
+        this.#createAuthKeyPromise = undefined;
+      }
     });
+    return this.#createAuthKeyPromise = promise;
   }
   async #createAuthKeyInner(isTemporary: boolean) {
+    const disconnectCount = this.#disconnectCount;
     let lastErr: unknown;
     let errored = false;
     const plain = new ClientPlain(this.#dc, this.#params);
+    this.#plainClients.add(plain);
     for (let i = 0; i < ClientEncrypted.#AUTH_KEY_CREATION_MAX_TRIES; ++i) {
       try {
         await plain.connect();
         const [authKey, serverSalt] = await plain.createAuthKey(isTemporary);
+        this.#assertNotDisconnectedSince(disconnectCount);
         if (isTemporary) {
           this.#temporaryAuthKey = authKey;
           await this.session.setAuthKey(this.#temporaryAuthKey);
@@ -248,10 +280,14 @@ export class ClientEncrypted extends ClientAbstract {
         errored = true;
         lastErr = err;
         this.#L.error("failed to create auth key:", err);
+        if (disconnectCount !== this.#disconnectCount) {
+          break;
+        }
       } finally {
         plain.disconnect();
       }
     }
+    this.#plainClients.delete(plain);
     if (errored) {
       throw lastErr;
     }
-- 
2.43.0


From 336a72d306685eef3e7a98cf5528c2f39bbd77a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 009/102] fix: do not take the binding of a temporary key for
 the connection's initialization

---
 client/2_client_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 7a5ef1a..864bfdc 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -471,7 +471,7 @@ export class ClientEncrypted extends ClientAbstract {
         this.#sentRequests.delete(msgId);
       }
     }
-    if (!this.#isConnectionInitialized) {
+    if (this.#isAuthKeyBound && !this.#isConnectionInitialized) {
       this.#isConnectionInitialized = true;
     }
   }
-- 
2.43.0


From 62ddddede931a14299eb0700f7a79e8c4078672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 010/102] fix: do not block the receive loop when reconnecting
 with a new temporary key, and keep trying

---
 client/2_client_encrypted.ts | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 864bfdc..6eb54e6 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -200,8 +200,7 @@ export class ClientEncrypted extends ClientAbstract {
       return;
     }
     this.#L.debug("reconnecting with a new temporary auth key");
-    this.disconnect();
-    drop(this.connect());
+    this.#reconnect();
   }, (loop, err) => {
     if (this.isDisconnected) {
       loop.abort();
@@ -214,6 +213,23 @@ export class ClientEncrypted extends ClientAbstract {
     this.#temporaryAuthKeyRefreshLoop.start();
   }
 
+  // must not be awaited by the receive loop, which receives the messages needed to finish it
+  #reconnect() {
+    this.disconnect();
+    const disconnectCount = this.#disconnectCount;
+    drop((async () => {
+      while (disconnectCount === this.#disconnectCount) {
+        try {
+          await this.connect();
+          break;
+        } catch (err) {
+          this.#L.error("failed to reconnect:", err);
+          await delay(3 * SECOND);
+        }
+      }
+    })());
+  }
+
   #disconnectCount = 0;
   #assertNotDisconnectedSince(disconnectCount: number) {
     if (disconnectCount !== this.#disconnectCount) {
@@ -386,15 +402,14 @@ export class ClientEncrypted extends ClientAbstract {
     return await sentRequest.promiseWithResolvers.promise as R;
   }
 
-  async #onTransportError(transportError: TransportError) {
+  #onTransportError(transportError: TransportError) {
     this.#L.error("transport error:", transportError);
     if (!this.#isPerfectForwardSecrecyEnabled) {
       return;
     }
     if (transportError.code === -404) {
       this.#L.debug("reconnecting with a new temporary auth key");
-      this.disconnect();
-      await this.connect();
+      this.#reconnect();
     }
   }
 
@@ -434,8 +449,7 @@ export class ClientEncrypted extends ClientAbstract {
   async #onRpcError(msgId: bigint, error: Mtproto.rpc_error) {
     if (error.error_message === "AUTH_KEY_PERM_EMPTY" || error.error_message === "ENCRYPTED_MESSAGE_INVALID") {
       this.#L.debug("reconnecting with a new temporary auth key because of", error.error_message);
-      this.disconnect();
-      await this.connect();
+      this.#reconnect();
     }
 
     const request = this.#sentRequests.get(msgId);
-- 
2.43.0


From dbbe1f55a15ad491bb2c64750cbe80cede519b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 011/102] fix: bind temporary keys with the identifier their
 request will really have

---
 session/0_session_state.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/session/0_session_state.ts b/session/0_session_state.ts
index 30187b6..6a00964 100644
--- a/session/0_session_state.ts
+++ b/session/0_session_state.ts
@@ -25,11 +25,15 @@ export class SessionState {
   serverSalt = 0n;
   #seqNo = 0;
   #messageId = 0n;
+  #previewedMessageId?: bigint;
 
   nextMessageId(): bigint {
-    return this.#messageId = this.previewNextMessageId();
+    const messageId = this.#previewedMessageId ?? this.previewNextMessageId();
+    this.#previewedMessageId = undefined;
+    return this.#messageId = messageId;
   }
 
+  /** Get the identifier that will be returned by the next call to `nextMessageId`, even if time passes until then. */
   previewNextMessageId(): bigint {
     const now = toUnixTimestamp(new Date()) + this.timeDifference;
     const nanoseconds = Math.floor((now - Math.floor(now)) * 1e9);
@@ -40,7 +44,7 @@ export class SessionState {
     } else {
       messageId = newMessageId;
     }
-    return messageId;
+    return this.#previewedMessageId = messageId;
   }
 
   nextSeqNo(contentRelated: boolean): number {
@@ -56,5 +60,6 @@ export class SessionState {
     this.serverSalt = 0n;
     this.#seqNo = 0;
     this.#messageId = 0n;
+    this.#previewedMessageId = undefined;
   }
 }
-- 
2.43.0


From 750d7f21cdafcd02000f0c698145a790f3556dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 012/102] fix: drop reads and bytes of the previous socket when
 a Node TCP connection is reopened

---
 connection/1_connection_tcp.node.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_tcp.node.ts b/connection/1_connection_tcp.node.ts
index 40dd876..23f9c1a 100644
--- a/connection/1_connection_tcp.node.ts
+++ b/connection/1_connection_tcp.node.ts
@@ -58,6 +58,8 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
-- 
2.43.0


From 9005a5bc975e43228523161888423e520a7ab249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 013/102] fix: close a Node TLS connection on a broken record

---
 connection/1_connection_tls.node.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 4d2062b..95b1e9f 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -210,6 +210,8 @@ export class ConnectionTLS implements Connection {
     const header = new Uint8Array(HEADER_LENGTH);
     await this.#read(header);
     if (!startsWith(header, new Uint8Array([0x17, 0x03, 0x03]))) {
+      this.#cleanupSocket();
+      this.stateChangeHandler?.(false);
       throw new TypeError("Failed to read TLS packet.");
     }
 
-- 
2.43.0


From f3a159542b2f0fbabde11c76f5a4f2d5f7fcff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 014/102] fix: close failed sockets and keep their late errors
 away from the reopened connection

---
 connection/1_connection_socks5.ts | 28 ++++++++---
 connection/1_connection_tcp.ts    | 32 ++++++++----
 connection/1_connection_tls.ts    | 84 +++++++++++++++++++------------
 3 files changed, 95 insertions(+), 49 deletions(-)

diff --git a/connection/1_connection_socks5.ts b/connection/1_connection_socks5.ts
index 8ed0de0..03bb0f8 100644
--- a/connection/1_connection_socks5.ts
+++ b/connection/1_connection_socks5.ts
@@ -205,15 +205,30 @@ export class ConnectionSocks5 implements Connection {
     }
   }
 
+  #onClose(connection: Deno.Conn) {
+    if (this.#connection === connection) {
+      this.#canRead = this.#canWrite = false;
+      this.#connection = undefined;
+      try {
+        connection.close();
+      } catch {
+        // already closed
+      }
+    }
+    if (!this.#connection) {
+      this.stateChangeHandler?.(false);
+    }
+  }
+
   async read(p: Uint8Array) {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#rMutex.lock();
 
     try {
-      await this.#readFromConnection(this.#connection!, p);
+      await this.#readFromConnection(connection, p);
     } catch {
-      this.#canRead = false;
-      this.stateChangeHandler?.(false);
+      this.#onClose(connection);
       throw new ConnectionError("The connection was closed.");
     } finally {
       unlock();
@@ -222,13 +237,12 @@ export class ConnectionSocks5 implements Connection {
 
   async write(p: Uint8Array) {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#wMutex.lock();
     try {
-      this.#assertConnected();
-      await this.#writeToConnection(this.#connection!, p);
+      await this.#writeToConnection(connection, p);
     } catch {
-      this.#canWrite = false;
-      this.stateChangeHandler?.(false);
+      this.#onClose(connection);
       throw new ConnectionError("The connection was closed.");
     } finally {
       unlock();
diff --git a/connection/1_connection_tcp.ts b/connection/1_connection_tcp.ts
index 33c2316..bb0040a 100644
--- a/connection/1_connection_tcp.ts
+++ b/connection/1_connection_tcp.ts
@@ -62,23 +62,37 @@ export class ConnectionTCP implements Connection {
     });
     connection.setNoDelay(true);
     connection.setKeepAlive(true);
+    this.#connection = connection;
     this.#canRead = this.#canWrite = true;
     this.stateChangeHandler?.(true);
     L.debug("connected to", this.#hostname, "port", this.#port);
-    this.#connection = connection;
+  }
+
+  #onClose(connection: Deno.Conn) {
+    if (this.#connection === connection) {
+      this.#canRead = this.#canWrite = false;
+      this.#connection = undefined;
+      try {
+        connection.close();
+      } catch {
+        // already closed
+      }
+    }
+    if (!this.#connection) {
+      this.stateChangeHandler?.(false);
+    }
   }
 
   async read(p: Uint8Array) {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#rMutex.lock();
     let offset = 0;
 
     try {
       do {
-        const read = await this.#connection!.read(p.subarray(offset));
+        const read = await connection.read(p.subarray(offset));
         if (read === null) {
-          this.#canRead = false;
-          this.stateChangeHandler?.(false);
           throw new ConnectionError("The connection was closed.");
         }
 
@@ -86,8 +100,7 @@ export class ConnectionTCP implements Connection {
         offset += read;
       } while (offset < p.byteLength);
     } catch {
-      this.#canRead = false;
-      this.stateChangeHandler?.(false);
+      this.#onClose(connection);
       throw new ConnectionError("The connection was closed.");
     } finally {
       unlock();
@@ -96,18 +109,17 @@ export class ConnectionTCP implements Connection {
 
   async write(p: Uint8Array) {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#wMutex.lock();
     try {
-      this.#assertConnected();
       let written = 0;
       while (written < p.byteLength) {
         try {
-          const wrote = await this.#connection!.write(p.subarray(written));
+          const wrote = await connection.write(p.subarray(written));
           this.callback?.write(wrote);
           written += wrote;
         } catch {
-          this.#canWrite = false;
-          this.stateChangeHandler?.(false);
+          this.#onClose(connection);
           throw new ConnectionError("The connection was closed.");
         }
       }
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index fd66714..bb713a0 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -61,26 +61,35 @@ export class ConnectionTLS implements Connection {
     }
   }
 
-  async #read(array: Uint8Array) {
-    let offset = 0;
-    try {
-      while (offset < array.byteLength) {
-        const n = await this.#connection!.read(array.subarray(offset));
-        if (n === null) {
-          this.#canRead = false;
-          this.stateChangeHandler?.(false);
-          throw new ConnectionError("The connection is not open.");
-        }
-        if (n <= 0) {
-          continue;
-        }
-        this.callback?.read(n);
-        offset += n;
+  #onClose(connection: Deno.Conn) {
+    if (this.#connection === connection) {
+      this.#canRead = this.#canWrite = false;
+      this.#isFirstWrite = true;
+      this.#buffer.clear();
+      this.#connection = undefined;
+      try {
+        connection.close();
+      } catch {
+        // already closed
       }
-    } catch (err) {
+    }
+    if (!this.#connection) {
       this.stateChangeHandler?.(false);
-      this.#canRead = false;
-      throw err;
+    }
+  }
+
+  async #read(connection: Deno.Conn, array: Uint8Array) {
+    let offset = 0;
+    while (offset < array.byteLength) {
+      const n = await connection.read(array.subarray(offset));
+      if (n === null) {
+        throw new ConnectionError("The connection is not open.");
+      }
+      if (n <= 0) {
+        continue;
+      }
+      this.callback?.read(n);
+      offset += n;
     }
   }
 
@@ -170,20 +179,26 @@ export class ConnectionTLS implements Connection {
     }
   }
 
-  async #readPacket() {
+  async #readPacket(connection: Deno.Conn) {
     const header = new Uint8Array(HEADER_LENGTH);
-    await this.#read(header);
+    await this.#read(connection, header);
     if (!startsWith(header, new Uint8Array([0x17, 0x03, 0x03]))) {
       throw new TypeError("Failed to read TLS packet.");
     }
 
     const length = new DataView(header.buffer).getUint16(3);
     const packet = new Uint8Array(length);
-    await this.#read(packet);
+    await this.#read(connection, packet);
+    if (this.#connection !== connection) {
+      throw new ConnectionError("The connection is not open.");
+    }
     this.#buffer.push(packet);
   }
 
-  async #writePacket(packet: Uint8Array) {
+  async #writePacket(connection: Deno.Conn, packet: Uint8Array) {
+    if (this.#connection !== connection) {
+      throw new ConnectionError("The connection is not open.");
+    }
     const header = new Uint8Array([0x17, 0x03, 0x03, 0x00, 0x00]);
     new DataView(header.buffer).setUint16(3, packet.byteLength);
     let data = concat([header, packet]);
@@ -191,24 +206,25 @@ export class ConnectionTLS implements Connection {
       this.#isFirstWrite = false;
       data = concat([new Uint8Array([0x14, 0x03, 0x03, 0x00, 0x01, 0x01]), data]);
     }
-    try {
-      await writeAll(this.#connection!, data);
-      this.callback?.write(data.byteLength);
-    } catch (err) {
-      this.#canWrite = false;
-      this.stateChangeHandler?.(false);
-      throw err;
-    }
+    await writeAll(connection, data);
+    this.callback?.write(data.byteLength);
   }
 
   async read(p: Uint8Array): Promise<void> {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#rMutex.lock();
     try {
+      if (this.#connection !== connection) {
+        throw new ConnectionError("The connection is not open.");
+      }
       while (this.#buffer.length < p.byteLength) {
-        await this.#readPacket();
+        await this.#readPacket(connection);
       }
       this.#buffer.read(p);
+    } catch (err) {
+      this.#onClose(connection);
+      throw err;
     } finally {
       unlock();
     }
@@ -216,6 +232,7 @@ export class ConnectionTLS implements Connection {
 
   async write(p: Uint8Array): Promise<void> {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#wMutex.lock();
     try {
       let offset = 0;
@@ -225,9 +242,12 @@ export class ConnectionTLS implements Connection {
           break;
         }
 
-        await this.#writePacket(packet);
+        await this.#writePacket(connection, packet);
         offset += packet.byteLength;
       }
+    } catch (err) {
+      this.#onClose(connection);
+      throw err;
     } finally {
       unlock();
     }
-- 
2.43.0


From 04bc972962eafaf1d6291e812366dd00305fc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 015/102] fix: recognize padded transport errors

---
 session/2_session_encrypted.ts | 4 ++--
 session/2_session_plain.ts     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index b304d21..27df446 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -235,8 +235,8 @@ export class SessionEncrypted extends Session implements Session {
   async #receive() {
     this.#assertNotDisconnected();
     const buffer = await this.transport.transport.receive();
-    if (buffer.byteLength === 4) {
-      const int = intFromBytes(buffer);
+    if (buffer.byteLength >= 4 && buffer.byteLength < 20) { // padded transports append up to 15 bytes
+      const int = intFromBytes(buffer.subarray(0, 4));
       throw new TransportError(Number(int));
     }
     try {
diff --git a/session/2_session_plain.ts b/session/2_session_plain.ts
index c02c451..4ebe2b1 100644
--- a/session/2_session_plain.ts
+++ b/session/2_session_plain.ts
@@ -54,8 +54,8 @@ export class SessionPlain extends Session implements Session {
     }
 
     const buffer = await this.transport.transport.receive();
-    if (buffer.byteLength === 4) {
-      const int = intFromBytes(buffer);
+    if (buffer.byteLength >= 4 && buffer.byteLength < 20) { // padded transports append up to 15 bytes
+      const int = intFromBytes(buffer.subarray(0, 4));
       throw new TransportError(Number(int));
     }
 
-- 
2.43.0


From cae06756139d6dc175923ae134c9254f16dd99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 016/102] fix: do not block the receive loop while recovering
 from a deserialization error

---
 client/6_client.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ac7871a..386b331 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -409,8 +409,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       this.#updateManager.processUpdates(updates, true, null);
       this.#lastUpdates = new Date();
     };
-    client.handlers.onDeserializationError = async () => {
-      await this.#updateManager.recoverUpdateGap("deserialization error");
+    client.handlers.onDeserializationError = () => {
+      // must not be awaited, because the response has to be received first
+      drop(this.#updateManager.recoverUpdateGap("deserialization error"));
     };
     client.handlers.onNewServerSalt = async (serverSalt) => {
       await this.storage.setServerSalt(serverSalt);
-- 
2.43.0


From 949fd4cd81103808cd532e2a8a0967981e7d30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 017/102] fix: do not process updates while an update gap is
 being recovered

---
 client/2_update_manager.ts | 109 ++++++++++++++++++++++++-------------
 1 file changed, 71 insertions(+), 38 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 73f6aae..b2621f5 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -358,13 +358,13 @@ export class UpdateManager {
   async #checkGap(pts: number, ptsCount: number) {
     const localState = await this.#getLocalState();
     if (localState.pts < pts && localState.pts + ptsCount !== pts) {
-      await this.recoverUpdateGap("processUpdates[pts]");
+      await this.#recoverUpdateGapInner("processUpdates[pts]");
     }
   }
   async #checkGapQts(qts: number) {
     const localState = await this.#getLocalState();
     if (localState.qts + UpdateManager.QTS_COUNT < qts) {
-      await this.recoverUpdateGap("processUpdates[qts]");
+      await this.#recoverUpdateGapInner("processUpdates[qts]");
     }
   }
   async #checkChannelGap(channelId: bigint, pts: number, ptsCount: number) {
@@ -438,7 +438,7 @@ export class UpdateManager {
     if (update.pts !== 0 && checkGap) {
       await this.#checkGap(update.pts, update.pts_count);
       if (await this.#needsGetDifference(update)) {
-        await this.recoverUpdateGap("needsGetDifference");
+        await this.#recoverUpdateGapInner("needsGetDifference");
       }
     }
 
@@ -459,7 +459,12 @@ export class UpdateManager {
   #ptsUpdateQueue = new Queue("ptsUpdate");
   #processPtsUpdate(update: PtsUpdate, checkGap: boolean) {
     this.#ptsUpdateQueue.add(async () => {
-      await this.#processPtsUpdateInner(update, checkGap);
+      const unlock = await this.#recoverUpdateGapMutex.lock();
+      try {
+        await this.#processPtsUpdateInner(update, checkGap);
+      } finally {
+        unlock();
+      }
     });
   }
 
@@ -487,7 +492,12 @@ export class UpdateManager {
   #qtsUpdateQueue = new Queue("qtsUpdate");
   #processQtsUpdate(update: QtsUpdate, checkGap: boolean) {
     this.#qtsUpdateQueue.add(async () => {
-      await this.#processQtsUpdateInner(update, checkGap);
+      const unlock = await this.#recoverUpdateGapMutex.lock();
+      try {
+        await this.#processQtsUpdateInner(update, checkGap);
+      } finally {
+        unlock();
+      }
     });
   }
 
@@ -513,27 +523,31 @@ export class UpdateManager {
         if (seqStart === 0) {
           this.#L$processUpdates.debug("seqStart=0");
         } else {
-          let localState = await this.#getLocalState();
+          const unlock = await this.#recoverUpdateGapMutex.lock();
+          try {
+            let localState = await this.#getLocalState();
 
-          if (localState.seq + 1 < seqStart) {
-            // There's an update gap that must be filled.
-            await this.recoverUpdateGap("localSeq + 1 < seqStart");
-            localState = await this.#getLocalState();
-          }
+            if (localState.seq + 1 < seqStart) {
+              // There's an update gap that must be filled.
+              await this.#recoverUpdateGapInner("localSeq + 1 < seqStart");
+              localState = await this.#getLocalState();
+            }
 
-          if (localState.seq + 1 === seqStart) {
-            // The update sequence can be applied.
-            localState.seq = seq;
-            localState.date = updates_.date;
-            await this.#setUpdateStateDate(updates_.date);
-            await this.#setState(localState);
-          } else if (localState.seq + 1 > seqStart) {
-            // The update sequence was already applied, and must be ignored.
-            this.#L$processUpdates.debug("localSeq + 1 > seqStart");
-            return;
-          } else {
-            this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
-            return;
+            if (localState.seq + 1 === seqStart) {
+              // The update sequence can be applied.
+              localState.seq = seq;
+              localState.date = updates_.date;
+              await this.#setState(localState);
+            } else if (localState.seq + 1 > seqStart) {
+              // The update sequence was already applied, and must be ignored.
+              this.#L$processUpdates.debug("localSeq + 1 > seqStart");
+              return;
+            } else {
+              this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
+              return;
+            }
+          } finally {
+            unlock();
           }
         }
       }
@@ -651,21 +665,31 @@ export class UpdateManager {
         this.#queueUpdate(update, 0n, false);
       }
     }
-    if (updatePtsChanged) {
+    if (updatePtsChanged && checkGap) { // the difference comes with the state that follows it
       await Promise.all([this.#ptsUpdateQueue, this.#qtsUpdateQueue].map((queue) => new Promise<void>((resolve) => queue.add(() => Promise.resolve().then(resolve)))));
-      await this.fetchState("updatePtsChanged");
-      if (this.#updateState) {
-        await this.#setState(this.#updateState);
-      } else {
-        unreachable();
+      const unlock = await this.#recoverUpdateGapMutex.lock();
+      try {
+        await this.fetchState("updatePtsChanged");
+        if (this.#updateState) {
+          await this.#setState(this.#updateState);
+        } else {
+          unreachable();
+        }
+      } finally {
+        unlock();
       }
     }
   }
 
   async #setUpdateStateDate(date: number) {
-    const localState = await this.#getLocalState();
-    localState.date = date;
-    await this.#setState(localState);
+    const unlock = await this.#recoverUpdateGapMutex.lock();
+    try {
+      const localState = await this.#getLocalState();
+      localState.date = date;
+      await this.#setState(localState);
+    } finally {
+      unlock();
+    }
   }
 
   async #setUpdatePts(pts: number) {
@@ -699,15 +723,25 @@ export class UpdateManager {
   }
 
   #updateGapRecoveryCount = 0;
+  #lastUpdateGapRecovery = 0;
   #recoverUpdateGapMutex = new Mutex();
   async recoverUpdateGap(source: string) {
     const updateGapRecoveryCount = this.#updateGapRecoveryCount;
     const unlock = await this.#recoverUpdateGapMutex.lock();
-    if (updateGapRecoveryCount !== this.#updateGapRecoveryCount) {
-      this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
+    try {
+      if (this.#lastUpdateGapRecovery > updateGapRecoveryCount) { // only if it did not start before the call
+        this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
+        return;
+      }
+      await this.#recoverUpdateGapInner(source);
+    } finally {
       unlock();
-      return;
     }
+  }
+
+  /** Must be called with {@link #recoverUpdateGapMutex} locked. */
+  async #recoverUpdateGapInner(source: string) {
+    const recovery = ++this.#updateGapRecoveryCount;
     this.#LrecoverUpdateGap.debug(`recovering from update gap [${source}]`);
 
     this.#c.setConnectionState("updating");
@@ -783,9 +817,8 @@ export class UpdateManager {
       throw err;
     } finally {
       if (wasRecovered) {
-        ++this.#updateGapRecoveryCount;
+        this.#lastUpdateGapRecovery = recovery;
       }
-      unlock();
       this.#c.resetConnectionState();
     }
   }
-- 
2.43.0


From 39735e42935e4086ed6695a442285f8439a213e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 018/102] fix: do not process updates of a channel while its
 update gap is being recovered

---
 client/2_update_manager.ts | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index b2621f5..ca4a2bb 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -373,7 +373,7 @@ export class UpdateManager {
       localPts = pts - ptsCount;
     }
     if (localPts < pts && localPts + ptsCount !== pts) {
-      await this.#recoverChannelUpdateGap(channelId, "processUpdates");
+      await this.#recoverChannelUpdateGapInner(channelId, "processUpdates");
     }
   }
 
@@ -388,7 +388,7 @@ export class UpdateManager {
           this.#c.storage.channelPts.set([channelId], update.pts);
         }
       }
-      await this.#recoverChannelUpdateGap(channelId, "updateChannelTooLong");
+      await this.#recoverChannelUpdateGapInner(channelId, "updateChannelTooLong");
       return;
     }
     if (update.pts !== 0) {
@@ -430,7 +430,12 @@ export class UpdateManager {
       this.#channelUpdateQueues.set(channelId, queue);
     }
     queue.add(async () => {
-      await this.#processChannelPtsUpdateInner(update, checkGap);
+      const unlock = await this.#lockChannel(channelId);
+      try {
+        await this.#processChannelPtsUpdateInner(update, checkGap);
+      } finally {
+        unlock();
+      }
     });
   }
 
@@ -824,13 +829,17 @@ export class UpdateManager {
   }
 
   #recoverChannelUpdateGapMutexes = new Map<bigint, Mutex>();
-  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+  async #lockChannel(channelId: bigint) {
     let mutex = this.#recoverChannelUpdateGapMutexes.get(channelId);
     if (!mutex) {
       mutex = new Mutex();
       this.#recoverChannelUpdateGapMutexes.set(channelId, mutex);
     }
-    const unlock = await mutex.lock();
+    return await mutex.lock();
+  }
+
+  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+    const unlock = await this.#lockChannel(channelId);
     try {
       return await this.#recoverChannelUpdateGapInner(channelId, source);
     } finally {
@@ -838,6 +847,7 @@ export class UpdateManager {
     }
   }
 
+  /** Must be called with {@link #lockChannel} locked. */
   async #recoverChannelUpdateGapInner(channelId: bigint, source: string) {
     let lastTimeout = 10;
     this.#LrecoverChannelUpdateGap.debug(`recovering channel update gap [${channelId}, ${source}]`);
-- 
2.43.0


From 99988212584125b7d3480de7d7fb9af1db813b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 019/102] fix: stop polling closed chats and wait before
 polling again after an error

---
 client/2_update_manager.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index ca4a2bb..b8bff0a 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -1163,12 +1163,13 @@ export class UpdateManager {
       while (true) {
         if (this.#c.isDisconnected()) {
           logger.debug("disconnected, stopping the loop");
-          this.#openChats.delete(channelId);
+          if (this.#openChats.get(channelId)?.controller === controller) {
+            this.#openChats.delete(channelId);
+          }
           break;
         }
-        if (!this.#openChats.has(channelId)) {
-          const aborted = controller.signal.aborted;
-          logger.debug(`closed${(aborted ? " (aborted)" : "")}, stopping the loop`);
+        if (controller.signal.aborted) {
+          logger.debug("closed, stopping the loop");
           break;
         }
         try {
@@ -1182,10 +1183,15 @@ export class UpdateManager {
             await delay(delayMs, { signal: controller.signal });
           }
         } catch (err) {
-          if (this.#c.isDisconnected()) {
+          if (this.#c.isDisconnected() || controller.signal.aborted) {
             continue; // breaks the loop
           }
           this.#LopenChat.error("an unexpected error occurred:", err);
+          try {
+            await delay((params?.timeout ?? 10) * SECOND, { signal: controller.signal });
+          } catch {
+            // closed while waiting
+          }
         }
       }
     });
-- 
2.43.0


From 60e4e656d1782827a2d47349297d13d0d6ef291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 020/102] fix: read stored objects given as type and buffer
 pairs

---
 client/0_storage_operations.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..40c14d6 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -262,7 +262,7 @@ export class StorageOperations {
 
   async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
     // @ts-ignore: TBD
-    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
+    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer) || keyOrBuffer[1] instanceof Uint8Array) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
     if (buffer !== null) {
       if (buffer instanceof Uint8Array) {
         return Api.deserializeType(X, rleDecode(buffer));
-- 
2.43.0


From 7e47c8749e84ffab2d1d4ab83362b33ce5ced3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 021/102] fix: store the state of channels along with updates
 when their delivery is guaranteed

---
 client/2_update_manager.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index b8bff0a..a13ab16 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -377,6 +377,13 @@ export class UpdateManager {
     }
   }
 
+  async #setChannelPts(channelId: bigint, pts: number) {
+    this.#c.storage.channelPts.set([channelId], pts);
+    if (this.#c.guaranteeUpdateDelivery) {
+      await this.#c.storage.commit(true);
+    }
+  }
+
   #channelUpdateQueues = new Map<bigint, Queue>();
 
   async #processChannelPtsUpdateInner(update: ChannelPtsUpdate, checkGap: boolean) {
@@ -385,7 +392,7 @@ export class UpdateManager {
       if (update.pts !== undefined && this.#mustDropPendingUpdates()) {
         const localPts = await this.#c.storage.channelPts.get([channelId]);
         if (localPts === null) {
-          this.#c.storage.channelPts.set([channelId], update.pts);
+          await this.#setChannelPts(channelId, update.pts);
         }
       }
       await this.#recoverChannelUpdateGapInner(channelId, "updateChannelTooLong");
@@ -407,7 +414,7 @@ export class UpdateManager {
       await this.#c.storage.setUpdate(channelId, update);
     }
     if (update.pts !== 0) {
-      this.#c.storage.channelPts.set([channelId], update.pts);
+      await this.#setChannelPts(channelId, update.pts);
     }
     this.#queueUpdate(update, channelId, true);
   }
@@ -891,7 +898,7 @@ export class UpdateManager {
             await this.#processUpdates(update, false);
           }
         }
-        this.#c.storage.channelPts.set([channelId], difference.pts);
+        await this.#setChannelPts(channelId, difference.pts);
         this.#LrecoverChannelUpdateGap.debug(`recovered from update gap [${channelId}, ${source}]`, channelId, source);
         if (!difference.final) {
           continue;
@@ -908,7 +915,7 @@ export class UpdateManager {
         }
         const pts_ = Api.as("dialog", difference.dialog).pts;
         if (pts_ !== undefined) {
-          this.#c.storage.channelPts.set([channelId], pts_);
+          await this.#setChannelPts(channelId, pts_);
         } else {
           unreachable();
         }
@@ -917,7 +924,7 @@ export class UpdateManager {
           break;
         }
       } else if (Api.is("updates.channelDifferenceEmpty", difference)) {
-        this.#c.storage.channelPts.set([channelId], difference.pts);
+        await this.#setChannelPts(channelId, difference.pts);
         this.#LrecoverChannelUpdateGap.debug("there was no update gap");
         if (difference.final) {
           break;
-- 
2.43.0


From 59e87c222f03c9bc451dd19614bc5eb85a02e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 022/102] fix: commit the storage periodically even if the
 cache is not persisted

---
 client/6_client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 386b331..a1dc070 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -575,7 +575,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     await delay(5 * SECOND, { signal });
     await this.messageStorage.commit();
     await this.storage.commit();
-  }, (err) => {
+  }, (_loop, err) => {
     this.#LstorageWriteLoop.error(err);
   });
 
@@ -1167,7 +1167,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       await this.storage.setServerSalt(this.#client!.serverSalt);
       this.#updateGapRecoveryLoop.start();
       this.#clientDisconnectionLoop.start();
-      if (!this.#messageStorage_.isMemory) {
+      if (!this.#storage_.isMemory || !this.#messageStorage_.isMemory) {
         this.#storageWriteLoop.start();
       } else {
         this.#L.debug("not starting storageWriteLoop");
-- 
2.43.0


From 8cc5143bdf4e3fb9fbcc8777dbbb1141847b8e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 023/102] fix: keep the order of stored updates when the clock
 is set back

---
 client/0_storage_operations.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 40c14d6..4c77798 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -484,7 +484,18 @@ export class StorageOperations {
   }
 
   #lastUpdateId = 0n;
-  #getUpdateId(update: Api.Update) {
+  #updateBoxIds = new Set<bigint>();
+  async #getUpdateId(boxId: bigint, update: Api.Update) {
+    if (!this.#updateBoxIds.has(boxId)) {
+      // the clock might have been ahead when the previous updates were stored
+      for await (const [key] of await this.#storage.getMany({ prefix: K.updates.updates(boxId) }, { limit: 1, reverse: true })) {
+        const id = key[2] as bigint;
+        if (id > this.#lastUpdateId) {
+          this.#lastUpdateId = id;
+        }
+      }
+      this.#updateBoxIds.add(boxId);
+    }
     let id = BigInt(Date.now()) << 32n;
     if ("pts" in update && update.pts) {
       id |= BigInt(update.pts);
@@ -499,7 +510,7 @@ export class StorageOperations {
     return this.#lastUpdateId = id;
   }
   async setUpdate(boxId: bigint, update: Api.Update) {
-    await this.setTlObject(K.updates.update(boxId, this.#getUpdateId(update)), update);
+    await this.setTlObject(K.updates.update(boxId, await this.#getUpdateId(boxId, update)), update);
   }
 
   async deleteUpdates() {
-- 
2.43.0


From 918f0cfd64f64ada039b0340f6666ec2634ca652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 024/102] fix: drop pending updates of channels announced by
 updateChannelTooLong

---
 client/2_update_manager.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index a13ab16..fd643bf 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -389,11 +389,13 @@ export class UpdateManager {
   async #processChannelPtsUpdateInner(update: ChannelPtsUpdate, checkGap: boolean) {
     const channelId = Api.is("updateNewChannelMessage", update) || Api.is("updateEditChannelMessage", update) ? Api.as("peerChannel", (update.message as Api.message | Api.messageService).peer_id).channel_id : update.channel_id;
     if (Api.is("updateChannelTooLong", update)) {
-      if (update.pts !== undefined && this.#mustDropPendingUpdates()) {
-        const localPts = await this.#c.storage.channelPts.get([channelId]);
-        if (localPts === null) {
+      if (this.#mustDropPendingUpdates() && !this.#nonFirst.has(channelId)) {
+        // what is stored comes from before the client was started
+        if (update.pts !== undefined) {
+          this.#nonFirst.add(channelId);
           await this.#setChannelPts(channelId, update.pts);
         }
+        return;
       }
       await this.#recoverChannelUpdateGapInner(channelId, "updateChannelTooLong");
       return;
-- 
2.43.0


From d8d84ce40a617aa4091d458b7585e8192c76aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 025/102] fix: keep web storages and their branches apart

The keys of a branch, or of another storage whose prefix begins alike, made getMany throw.
---
 storage/1_utilities.ts                  | 10 +++++
 storage/2_storage_local_storage.node.ts | 53 +++++++++++--------------
 storage/2_storage_local_storage.ts      | 53 +++++++++++--------------
 storage/2_storage_session_storage.ts    | 53 +++++++++++--------------
 4 files changed, 79 insertions(+), 90 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 3a5ab42..f8e1700 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -97,6 +97,16 @@ export function fromString<T>(string: string): T {
   }
 }
 
+/** Returns null if the string is not one that `toString` makes of a key. */
+export function parseKey(string: string): StorageKeyPart[] | null {
+  try {
+    const parts = fromString<StorageKeyPart[]>(string);
+    return Array.isArray(parts) && toString(parts) === string ? parts : null;
+  } catch {
+    return null;
+  }
+}
+
 type FixedBigInt = [typeof ValueType.BigInt, -1 | 1, number, ...number[]];
 
 function fixBigInt(value: bigint): FixedBigInt {
diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 5ced7f1..b52802c 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -20,7 +20,7 @@
 
 import { LocalStorage } from "node-localstorage";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, parseKey, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   #prefix: string;
@@ -71,44 +71,37 @@ export class StorageLocalStorage implements Storage {
   }
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
-    const entries = Object.entries(this.#storage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+    const entries = new Array<[StorageKeyPart[], string]>();
+    for (const [key, value] of Object.entries(this.#storage) as [string, string][]) {
+      const parts = key.startsWith(this.prefix) ? parseKey(key.slice(this.prefix.length)) : null;
+      if (parts !== null) {
+        entries.push([parts, value]);
+      }
+    }
+    entries.sort(([left], [right]) => compareKeys(left, right));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const [parts, value] of entries) {
+      if ("prefix" in filter) {
+        for (const [i, p] of filter.prefix.entries()) {
+          if (i >= parts.length || toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 1908bc2..00428e0 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, parseKey, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   readonly #prefix: string;
@@ -71,44 +71,37 @@ export class StorageLocalStorage implements Storage {
   }
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
-    const entries = Object.entries(localStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+    const entries = new Array<[StorageKeyPart[], string]>();
+    for (const [key, value] of Object.entries(localStorage) as [string, string][]) {
+      const parts = key.startsWith(this.prefix) ? parseKey(key.slice(this.prefix.length)) : null;
+      if (parts !== null) {
+        entries.push([parts, value]);
+      }
+    }
+    entries.sort(([left], [right]) => compareKeys(left, right));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const [parts, value] of entries) {
+      if ("prefix" in filter) {
+        for (const [i, p] of filter.prefix.entries()) {
+          if (i >= parts.length || toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index eea0c55..e1bfae8 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, parseKey, toString } from "./1_utilities.ts";
 
 export class StorageSessionStorage implements Storage {
   readonly #prefix: string;
@@ -72,44 +72,37 @@ export class StorageSessionStorage implements Storage {
   }
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
-    const entries = Object.entries(sessionStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+    const entries = new Array<[StorageKeyPart[], string]>();
+    for (const [key, value] of Object.entries(sessionStorage) as [string, string][]) {
+      const parts = key.startsWith(this.prefix) ? parseKey(key.slice(this.prefix.length)) : null;
+      if (parts !== null) {
+        entries.push([parts, value]);
+      }
+    }
+    entries.sort(([left], [right]) => compareKeys(left, right));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const [parts, value] of entries) {
+      if ("prefix" in filter) {
+        for (const [i, p] of filter.prefix.entries()) {
+          if (i >= parts.length || toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
-- 
2.43.0


From 7f3805064fcda30ebe71272cebf76ac5ad38f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 026/102] fix: list no more than the keys under a prefix in
 IndexedDB

A prefix that ends with a string covered the keys whose part only begins with it, and so a branch those of others.
---
 storage/1_utilities.ts | 63 ++----------------------------------------
 1 file changed, 3 insertions(+), 60 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index f8e1700..f180663 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -138,66 +138,9 @@ export function restoreKey(key: readonly IDBValidKey[]): StorageKeyPart[] {
   });
 }
 
-// Source: https://gist.github.com/inexorabletash/5462871
-// deno-lint-ignore no-explicit-any
-export function getPrefixKeyRange(prefix: any): IDBKeyRange {
-  // Ensure prefix is a valid key itself:
-  if (indexedDB.cmp(prefix, prefix) !== 0) throw new TypeError();
-
-  const upperKey = successor(prefix);
-  if (upperKey === undefined) return IDBKeyRange.lowerBound(prefix);
-  return IDBKeyRange.bound(prefix, upperKey, false, true);
-}
-const MAX_DATE_VALUE = 8640000000000000;
-const UPPER_BOUND = {
-  NUMBER: new Date(-MAX_DATE_VALUE),
-  DATE: "",
-  STRING: [],
-  ARRAY: undefined,
-};
-// deno-lint-ignore no-explicit-any
-function successor(key: any) {
-  if (typeof key === "number") {
-    if (key === Infinity) return UPPER_BOUND.NUMBER;
-    if (key === -Infinity) return -Number.MAX_VALUE;
-    if (key === 0) return Number.MIN_VALUE;
-    let epsilon = Math.abs(key);
-    while (key + epsilon / 2 !== key) epsilon = epsilon / 2;
-    return key + epsilon;
-  }
-
-  if (key instanceof Date) {
-    if (key.valueOf() + 1 > MAX_DATE_VALUE) return UPPER_BOUND.DATE;
-    return new Date(key.valueOf() + 1);
-  }
-
-  if (typeof key === "string") {
-    let len = key.length;
-    while (len > 0) {
-      const head = key.substring(0, len - 1),
-        tail = key.charCodeAt(len - 1);
-      if (tail !== 0xffff) return head + String.fromCharCode(tail + 1);
-      key = head;
-      --len;
-    }
-    return UPPER_BOUND.STRING;
-  }
-
-  if (Array.isArray(key)) {
-    key = key.slice(); // Operate on a copy.
-    let len = key.length;
-    while (len > 0) {
-      const tail = successor(key.pop());
-      if (tail !== undefined) {
-        key.push(tail);
-        return key;
-      }
-      --len;
-    }
-    return UPPER_BOUND.ARRAY;
-  }
-
-  throw new TypeError();
+export function getPrefixKeyRange(prefix: IDBValidKey[]): IDBKeyRange {
+  // No part of a key is as great as an array that begins with an array.
+  return IDBKeyRange.bound(prefix, [...prefix, [[]]], false, true);
 }
 
 export function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]): number {
-- 
2.43.0


From 5ac60879dea5d0f05438cf6764fc35dbe5b8ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 027/102] fix: do not let a slow read undo a newer write to the
 storage

A value read from the storage replaced one that had been set meanwhile.
---
 client/0_storage_operations.ts | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 4c77798..46d0c58 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -735,8 +735,10 @@ class StorageMap<K extends StorageKeyPart[], V> {
 
   #pendingUpdates = new Map<string, V>();
   #cache = new LruCache<string, V | null>(20_000);
+  #revision = 0n;
   set(key: K, value: V) {
     const key_ = toString(key);
+    ++this.#revision;
     this.#cache.set(key_, value);
     if (!this.#storage.isMemory) {
       this.#pendingUpdates.set(key_, value);
@@ -748,6 +750,7 @@ class StorageMap<K extends StorageKeyPart[], V> {
   }
 
   reset() {
+    ++this.#revision;
     this.#pendingUpdates.clear();
     this.#cache.clear();
   }
@@ -767,12 +770,18 @@ class StorageMap<K extends StorageKeyPart[], V> {
 
   async get(key: K): Promise<V | null> {
     const key_ = toString(key);
-    let value = this.#cache.get(key_);
-    if (value === undefined) {
-      value = await this.#storage.get<V>([this.#path, ...key]);
-      this.#cache.set(key_, value);
+    const value = this.#cache.get(key_);
+    if (value !== undefined) {
+      return value;
     }
-    return value;
+    const revision = this.#revision;
+    const storedValue = await this.#storage.get<V>([this.#path, ...key]);
+    if (this.#revision !== revision) {
+      // storedValue might be outdated
+      return this.#cache.get(key_) ?? storedValue;
+    }
+    this.#cache.set(key_, storedValue);
+    return storedValue;
   }
 
   async commit() {
@@ -808,9 +817,9 @@ class StorageValue<T> {
   #value?: T | null;
   set(value: T | null) {
     this.#value = value;
+    ++this.#revision;
     if (!this.#storage.isMemory) {
       this.#isUpdatePending = true;
-      ++this.#revision;
     }
   }
 
@@ -830,7 +839,13 @@ class StorageValue<T> {
 
   async get(): Promise<T | null> {
     if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+      const revision = this.#revision;
+      const value = await this.#storage.get<T>(this.#key);
+      if (this.#revision !== revision) {
+        // value might be outdated
+        return this.#value === undefined ? value : this.#value;
+      }
+      this.#value = value;
     }
     return this.#value;
   }
-- 
2.43.0


From 1f63b5adcd36f205408c495a07fb6bbfd1f0d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 028/102] fix: do not forget changes that have left the cache
 before being committed

With more than 20,000 entries changed between two commits, or read during a commit, outdated values were read from the storage.
---
 client/0_storage_operations.ts | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 46d0c58..171a4be 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -733,7 +733,7 @@ class StorageMap<K extends StorageKeyPart[], V> {
     this.#path = path;
   }
 
-  #pendingUpdates = new Map<string, V>();
+  #pendingUpdates = new Map<string, { value: V }>();
   #cache = new LruCache<string, V | null>(20_000);
   #revision = 0n;
   set(key: K, value: V) {
@@ -741,7 +741,7 @@ class StorageMap<K extends StorageKeyPart[], V> {
     ++this.#revision;
     this.#cache.set(key_, value);
     if (!this.#storage.isMemory) {
-      this.#pendingUpdates.set(key_, value);
+      this.#pendingUpdates.set(key_, { value });
     }
   }
 
@@ -756,9 +756,10 @@ class StorageMap<K extends StorageKeyPart[], V> {
   }
 
   getSync(key: K): V | null {
-    const value = this.#cache.get(toString(key));
+    const key_ = toString(key);
+    const value = this.#cache.get(key_);
     if (value === undefined) {
-      return null;
+      return this.#pendingUpdates.get(key_)?.value ?? null;
     } else {
       return value;
     }
@@ -774,6 +775,10 @@ class StorageMap<K extends StorageKeyPart[], V> {
     if (value !== undefined) {
       return value;
     }
+    const pendingUpdate = this.#pendingUpdates.get(key_);
+    if (pendingUpdate !== undefined) {
+      return pendingUpdate.value;
+    }
     const revision = this.#revision;
     const storedValue = await this.#storage.get<V>([this.#path, ...key]);
     if (this.#revision !== revision) {
@@ -788,18 +793,12 @@ class StorageMap<K extends StorageKeyPart[], V> {
     if (this.#storage.isMemory) {
       return;
     }
-    const pendingUpdates = this.#pendingUpdates;
-    this.#pendingUpdates = new Map();
-    try {
-      await awaitablePooledMap(2, pendingUpdates, async ([key, value]) => await this.#storage.set([this.#path, ...fromString(key) as StorageKeyPart[]], value));
-    } catch (err) {
-      for (const [key, value] of pendingUpdates) {
-        if (!this.#pendingUpdates.has(key)) {
-          this.#pendingUpdates.set(key, value);
-        }
+    await awaitablePooledMap(2, [...this.#pendingUpdates], async ([key, update]) => {
+      await this.#storage.set([this.#path, ...fromString(key) as StorageKeyPart[]], update.value);
+      if (this.#pendingUpdates.get(key) === update) {
+        this.#pendingUpdates.delete(key);
       }
-      throw err;
-    }
+    });
   }
 }
 
-- 
2.43.0


From fea1bc2a8c5790f151eeb707d15926220a87f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 029/102] fix: forget the first secret exponent of a secret
 chat when its key is replaced

---
 client/3_secret_chat_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..4a77418 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1066,6 +1066,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.authKeyCreatedAt = Date.now();
     state.authKeyUseCount = 0;
     state.isAuthKeyUsed = false;
+    state.a = 0n;
   }
 
   async #abortRekey(state: SecretChatState, exchangeId: bigint) {
-- 
2.43.0


From beceeba30dc3d9bd46422fad97ff972095aa2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 030/102] fix: install the new key of a secret chat even if
 committing it seems to fail

---
 client/3_secret_chat_manager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 4a77418..1900b64 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1109,9 +1109,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id: state.rekeyId,
       key_fingerprint: authKeyId,
     };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    const { authKey: previousAuthKey, authKeyId_: previousAuthKeyId_ } = state;
     this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
     this.#clearInitiatedRekey(state);
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, previousAuthKey, previousAuthKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
-- 
2.43.0


From bd975696aa908ac2bb0c604c75bfde053e418ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 031/102] fix: expect answers to messages of a re-key that
 seemed not to be sent

---
 client/3_secret_chat_manager.ts | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 1900b64..445249e 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1170,16 +1170,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-    try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    } catch (err) {
-      state.toCommitId = 0n;
-      state.toCommitAuthKey = new Uint8Array();
-      state.toCommitAuthKeyId = 0n;
-      state.toCommitAuthKeyId_ = new Uint8Array();
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // The message is numbered, so even if this fails it will be requested again and reach the other party.
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
@@ -1379,24 +1371,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
-    try {
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id,
-          action,
-        },
-        encryptedChat,
-        authKey,
-        authKeyId,
-        undefined,
-        true,
-      );
-    } catch (err) {
-      this.#clearInitiatedRekey(state);
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // The message is numbered, so even if this fails it will be requested again and reach the other party.
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, encryptedChat, authKey, authKeyId, undefined, true);
   }
 
   async #maybeStartRekey(state: SecretChatState) {
-- 
2.43.0


From 2585d2c7d4e92dec42178db84cd176471a0374a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 032/102] fix: do not leave received secret messages behind
 when handling one before them fails

---
 client/3_secret_chat_manager.ts | 67 +++++++++++++++++----------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 445249e..6897069 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -939,32 +939,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     if (!alreadyPending && SecretChats.is("decryptedMessageService", message.message) && SecretChats.is("decryptedMessageActionResend", message.message.action)) {
       await this.#resendMessages(state, message.message.action, isCreator);
     }
-    if (outSeqNo > state.inSeqNo) { // gap
-      if (!state.pendingMessages.some((v) => v[0].out_seq_no === message.out_seq_no)) {
-        state.pendingMessages.push([message, encryptedMessage]);
-      }
-      if (state.isGapRequested) {
-        return;
-      }
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id: getRandomId(),
-          action: {
-            _: "decryptedMessageActionResend",
-            start_seq_no: state.inSeqNo * 2 + x,
-            end_seq_no: message.out_seq_no - 2,
-          },
-        },
-        state.encryptedChat,
-        state.authKey,
-        state.authKeyId_,
-        undefined,
-        true,
-      );
-      state.isGapRequested = true;
-      state.gapEndSeqNo = outSeqNo - 1;
-      return;
+    if (!alreadyPending) {
+      state.pendingMessages.push([message, encryptedMessage]);
     }
 
     const handle = async (message: SecretChats.decryptedMessageLayer, encryptedMessage: Api.EncryptedMessage) => {
@@ -980,22 +956,49 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       ++state.inSeqNo;
       await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
     };
-    await handle(message, encryptedMessage);
-    while (true) {
+    let error: unknown;
+    let hasFailed = false;
+    while (Api.is("encryptedChat", state.encryptedChat)) {
       const index = state.pendingMessages.findIndex((v) => (v[0].out_seq_no - x) / 2 === state.inSeqNo);
       if (index === -1) {
         break;
       }
       const [pendingMessage] = state.pendingMessages.splice(index, 1);
-      await handle(pendingMessage[0], pendingMessage[1]);
+      try {
+        await handle(pendingMessage[0], pendingMessage[1]);
+      } catch (err) {
+        // The messages that follow must not get stuck.
+        error = hasFailed ? error : err;
+        hasFailed = true;
+      }
     }
     if (state.pendingMessages.length === 0) {
       state.isGapRequested = false;
       state.gapEndSeqNo = -1;
-    } else if (state.inSeqNo > state.gapEndSeqNo) {
+    } else if (Api.is("encryptedChat", state.encryptedChat) && (!state.isGapRequested || state.inSeqNo > state.gapEndSeqNo)) { // gap
       state.isGapRequested = false;
-      const next = state.pendingMessages.reduce((a, b) => a[0].out_seq_no < b[0].out_seq_no ? a : b);
-      await this.#checkGap(chatId, next[0], next[1]);
+      const nextOutSeqNo = Math.min(...state.pendingMessages.map((v) => v[0].out_seq_no));
+      await this.#sendMessage(
+        {
+          _: "decryptedMessageService",
+          random_id: getRandomId(),
+          action: {
+            _: "decryptedMessageActionResend",
+            start_seq_no: state.inSeqNo * 2 + x,
+            end_seq_no: nextOutSeqNo - 2,
+          },
+        },
+        state.encryptedChat,
+        state.authKey,
+        state.authKeyId_,
+        undefined,
+        true,
+      );
+      state.isGapRequested = true;
+      state.gapEndSeqNo = (nextOutSeqNo - x) / 2 - 1;
+    }
+    if (hasFailed) {
+      throw error;
     }
   }
 
-- 
2.43.0


From 628eaa4a77a3f3ecc81001f18efc874bc51cd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 033/102] fix: store the number of a secret message before
 sending it

---
 client/3_secret_chat_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 6897069..fb8bf24 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -796,6 +796,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
+    // The number must not be used for another message, even if the process ends now.
+    await state.commit(this.#c.messageStorage.storage);
     if (file) {
       const result = await this.#c.invoke({
         _: "messages.sendEncryptedFile",
-- 
2.43.0


From b94029556e3010baea8f69dcc2d2b88aa10c2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 034/102] fix: complete the key exchange if a secret chat is
 accepted before the answer to its request is received

---
 client/3_secret_chat_manager.ts | 71 +++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index fb8bf24..229b4b9 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -162,9 +162,14 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.prime = prime;
     state.a = a;
     state.pendingExponent = a;
-    state.encryptedChat = result;
+    if (Api.is("encryptedChat", state.encryptedChat)) {
+      // The chat was accepted before the result was received.
+      await this.#completeKeyExchange(state, state.encryptedChat);
+    } else {
+      state.encryptedChat = result;
+    }
     await state.commit(this.#c.messageStorage.storage);
-    return constructSecretChat(result, await this.#c.getSelfId());
+    return constructSecretChat(state.encryptedChat, await this.#c.getSelfId());
   }
 
   static parseText(text: string, entities: SecretMessageEntity[], parseMode: ParseMode, isEmptyAllowed = false): [string, SecretMessageEntity[]] {
@@ -1289,6 +1294,39 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     return null;
   }
 
+  async #completeKeyExchange(state: SecretChatState, encryptedChat: Api.encryptedChat) {
+    const pending = state.pendingExponent;
+    if (pending === 0n) {
+      return;
+    }
+
+    const gB = intFromBytes(encryptedChat.g_a_or_b, { byteOrder: "big", isSigned: false });
+    if (!isGoodModExpFirst(gB, state.prime)) {
+      this.#L.debug("discarding secret chat", encryptedChat.id, "because an invalid g_b was received");
+      state.pendingExponent = 0n;
+      await this.#discardSecretChat(state, encryptedChat.id);
+      throw new TypeError("Received invalid g_b.");
+    }
+
+    const authKey = intToBytes(modExp(gB, pending, state.prime), 256, { byteOrder: "big", isSigned: false });
+    const authKeyId_ = (await sha1(authKey)).subarray(-8);
+    const authKeyId = intFromBytes(authKeyId_);
+    if (authKeyId !== encryptedChat.key_fingerprint) {
+      this.#L.debug("discarding secret chat", encryptedChat.id, "because of key fingerprint mismatch");
+      state.pendingExponent = 0n;
+      await this.#discardSecretChat(state, encryptedChat.id);
+      throw new TypeError("Secret chat key fingerprint mismatch.");
+    }
+
+    state.authKey = authKey;
+    state.authKeyId = authKeyId;
+    state.authKeyId_ = authKeyId_;
+    state.authKeyCreatedAt = Date.now();
+    state.authKeyUseCount = 0;
+    state.isAuthKeyUsed = false;
+    state.pendingExponent = 0n;
+  }
+
   canHandleUpdate(update: Api.Update): update is SecretChatManagerUpdate {
     return Api.isOneOf(secretChatManagerUpdates, update);
   }
@@ -1312,34 +1350,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     } else {
       const state = this.#getSecretChatState(update.chat.id);
       if (Api.is("encryptedChat", update.chat)) {
-        const pending = state.pendingExponent;
-        if (pending !== 0n) {
-          const gB = intFromBytes(update.chat.g_a_or_b, { byteOrder: "big", isSigned: false });
-          if (!isGoodModExpFirst(gB, state.prime)) {
-            this.#L.debug("discarding secret chat", update.chat.id, "because an invalid g_b was received");
-            state.pendingExponent = 0n;
-            await this.#discardSecretChat(state, update.chat.id);
-            throw new TypeError("Received invalid g_b.");
-          }
-
-          const authKey = intToBytes(modExp(gB, pending, state.prime), 256, { byteOrder: "big", isSigned: false });
-          const authKeyId_ = (await sha1(authKey)).subarray(-8);
-          const authKeyId = intFromBytes(authKeyId_);
-          if (authKeyId !== update.chat.key_fingerprint) {
-            this.#L.debug("discarding secret chat", update.chat.id, "because of key fingerprint mismatch");
-            state.pendingExponent = 0n;
-            await this.#discardSecretChat(state, update.chat.id);
-            throw new TypeError("Secret chat key fingerprint mismatch.");
-          }
-
-          state.authKey = authKey;
-          state.authKeyId = authKeyId;
-          state.authKeyId_ = authKeyId_;
-          state.authKeyCreatedAt = Date.now();
-          state.authKeyUseCount = 0;
-          state.isAuthKeyUsed = false;
-          state.pendingExponent = 0n;
-        }
+        await this.#completeKeyExchange(state, update.chat);
       }
 
       state.encryptedChat = update.chat;
-- 
2.43.0


From 6dcc7b41e53851f6ea024a372d92602aed58fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 035/102] fix: do not replace the key of a secret chat when
 accepting it again fails

---
 client/3_secret_chat_manager.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 229b4b9..82268be 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -247,15 +247,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     if (authKey.byteLength < 256) {
       authKey = concat([new Uint8Array(256 - authKey.byteLength), authKey]);
     }
-    state.authKey = authKey;
-    state.authKeyCreatedAt = Date.now();
-    state.authKeyUseCount = 0;
-    state.isAuthKeyUsed = false;
-
     const authKeyId = (await sha1(authKey)).subarray(-8);
-    state.authKeyId_ = authKeyId;
     const key_fingerprint = intFromBytes(authKeyId);
-    state.authKeyId = key_fingerprint;
 
     // g_b := pow(g, b) mod dh_prime
     const g_b = intToBytes(gB, 256, { byteOrder: "big", isSigned: false });
@@ -268,6 +261,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       g_b,
       key_fingerprint,
     });
+    // Another attempt to accept the chat must not affect the key.
+    state.authKey = authKey;
+    state.authKeyCreatedAt = Date.now();
+    state.authKeyUseCount = 0;
+    state.isAuthKeyUsed = false;
+    state.authKeyId_ = authKeyId;
+    state.authKeyId = key_fingerprint;
     state.encryptedChat = result;
     await state.commit(this.#c.messageStorage.storage);
     return constructSecretChat(result, await this.#c.getSelfId());
-- 
2.43.0


From 30ada1a679763ef288a17ed111b923a3feb200f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:22 +0000
Subject: [PATCH 036/102] fix: do not let late updates and results undo the
 acceptance or the end of a secret chat

---
 client/3_secret_chat_manager.ts | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 82268be..1275bee 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -165,7 +165,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     if (Api.is("encryptedChat", state.encryptedChat)) {
       // The chat was accepted before the result was received.
       await this.#completeKeyExchange(state, state.encryptedChat);
-    } else {
+    } else if (!Api.is("encryptedChatDiscarded", state.encryptedChat)) {
       state.encryptedChat = result;
     }
     await state.commit(this.#c.messageStorage.storage);
@@ -268,9 +268,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.isAuthKeyUsed = false;
     state.authKeyId_ = authKeyId;
     state.authKeyId = key_fingerprint;
-    state.encryptedChat = result;
+    if (!Api.is("encryptedChatDiscarded", state.encryptedChat)) {
+      state.encryptedChat = result;
+    }
     await state.commit(this.#c.messageStorage.storage);
-    return constructSecretChat(result, await this.#c.getSelfId());
+    return constructSecretChat(state.encryptedChat, await this.#c.getSelfId());
   }
 
   async endSecretChat(id: number, params?: EndSecretChatParams): Promise<SecretChat> {
@@ -309,7 +311,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
   #mustGetEncryptedChat(id: number): SecretChatState & { encryptedChat: Api.encryptedChat } {
     const state = this.#getSecretChatState(id);
-    if (!Api.is("encryptedChat", state.encryptedChat)) {
+    if (!Api.is("encryptedChat", state.encryptedChat) || state.authKey.byteLength === 0) {
       throw new InputError("Received invalid secret chat identifier.");
     }
     return state as SecretChatState & { encryptedChat: Api.encryptedChat };
@@ -1341,14 +1343,19 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
 
     if (Api.is("encryptedChatDiscarded", update.chat)) {
-      const state = this.#states.get(update.chat.id);
-      if (state !== undefined) {
-        this.#states.delete(update.chat.id);
-        state.encryptedChat = update.chat;
-        await state.commit(this.#c.messageStorage.storage);
-      }
+      const state = this.#getSecretChatState(update.chat.id);
+      // Updates and results that are received late must not bring the chat back.
+      const discardedState = new SecretChatState();
+      discardedState.encryptedChat = update.chat;
+      this.#states.set(update.chat.id, discardedState);
+      state.encryptedChat = update.chat;
+      await state.commit(this.#c.messageStorage.storage);
     } else {
       const state = this.#getSecretChatState(update.chat.id);
+      if (Api.is("encryptedChatDiscarded", state.encryptedChat) || Api.is("encryptedChat", state.encryptedChat) && !Api.is("encryptedChat", update.chat)) {
+        // This is an outdated update.
+        return null;
+      }
       if (Api.is("encryptedChat", update.chat)) {
         await this.#completeKeyExchange(state, update.chat);
       }
-- 
2.43.0


From 89869cd9300018c72058e239793ffc56fc189038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 037/102] fix: do not strip byte order marks from received
 strings

---
 utilities/0_text.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/0_text.ts b/utilities/0_text.ts
index 5d6c2ca..d00305e 100644
--- a/utilities/0_text.ts
+++ b/utilities/0_text.ts
@@ -19,7 +19,7 @@
  */
 
 const encoder = new TextEncoder();
-const decoder = new TextDecoder();
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 
 export function encodeText(decoded: string) {
   return encoder.encode(decoded);
-- 
2.43.0


From 9d4cf368ec738fa589458a822caf2d33e501bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 038/102] fix: handle parts of a streamed upload that fail
 before being awaited

---
 client/2_file_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 39ec677..edaee7e 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -172,6 +172,7 @@ export class FileManager {
           }
         }),
       );
+      promises.at(-1)!.catch(() => {}); // It is awaited later.
       if (promises.length === poolSize * UPLOAD_REQUEST_PER_CONNECTION) {
         await Promise.all(promises);
         promises = [];
-- 
2.43.0


From 99170bde263a87c277a32dccb9f7eaf1021702b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 039/102] fix: do not give small peer photos the key of big
 ones in the storage

---
 client/2_file_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index edaee7e..60260a2 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -398,7 +398,7 @@ export class FileManager {
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
-    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
+    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
       if (file !== null && file[0] > 0) {
-- 
2.43.0


From 0f4603852762d75f7fd413ad5414ee69ab28722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 040/102] fix: save downloaded parts before giving them to the
 application

---
 client/2_file_manager.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 60260a2..2bf7ea9 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -496,13 +496,13 @@ export class FileManager {
             bytesToSkip -= skipped;
             result.bytes = result.bytes.subarray(skipped);
           }
-          if (result.bytes.byteLength) {
-            yield result.bytes;
-          }
           if (cacheId !== null) {
             await this.#c.storage.saveFilePart(cacheId, part, bytesToCache);
             signal?.throwIfAborted();
           }
+          if (result.bytes.byteLength) {
+            yield result.bytes;
+          }
           ++part;
           if (finished) {
             if (cacheId !== null) {
-- 
2.43.0


From b5dfd265f282878b5880458b080185587ac53376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 041/102] fix: do not mix the parts of concurrent downloads in
 the storage

---
 client/2_file_manager.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 2bf7ea9..375d65e 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -40,6 +40,7 @@ export interface EncryptionInformation {
 export class FileManager {
   #c: C;
   #Lupload: Logger;
+  #cachingFiles = new Set<bigint>();
   static #UPLOAD_MAX_CHUNK_SIZE = 512 * kilobyte;
   static #BIG_FILE_THRESHOLD = 10 * megabyte;
 
@@ -441,7 +442,7 @@ export class FileManager {
     const limit = chunkSize;
     const requestedOffset = params?.offset ?? 0;
     let offset = decryptionInformation ? 0n : BigInt(requestedOffset);
-    const cacheId = offset === 0n ? id : null;
+    const cacheId = offset === 0n && id !== null && !this.#cachingFiles.has(id) ? id : null;
     let bytesToSkip = decryptionInformation ? requestedOffset : 0;
     let part = 0;
 
@@ -458,6 +459,9 @@ export class FileManager {
     };
     const requests = Array.from({ length: requestCount }, (_, i) => downloadPart(offset + BigInt(i * limit), part + i));
     let requestIndex = 0;
+    if (cacheId !== null) {
+      this.#cachingFiles.add(cacheId);
+    }
 
     try {
       let finished = false;
@@ -520,6 +524,9 @@ export class FileManager {
     } finally {
       signal?.removeEventListener("abort", abortRequests);
       requestController.abort();
+      if (cacheId !== null) {
+        this.#cachingFiles.delete(cacheId);
+      }
     }
   }
 
-- 
2.43.0


From cd62b2f6cba169408b701ba94871c2e6bed05ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 042/102] fix: close connections being set up when
 disconnecting

---
 client/6_client.ts | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index a1dc070..74d674b 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -437,10 +437,15 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     return client;
   }
 
+  #disconnectCount = 0;
   #disconnectAllClients() {
+    ++this.#disconnectCount;
     for (const client of this.#clients) {
       client.disconnect();
     }
+    for (const client of this.#clientsInSetup) {
+      client.disconnect();
+    }
     for (const pool of Object.values(this.#downloadPools)) {
       pool.disconnect();
     }
@@ -1069,7 +1074,18 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     }
   }
 
+  #clientsInSetup = new Set<ClientEncrypted>();
   async #setupClient(client: ClientEncrypted) {
+    this.#clientsInSetup.add(client);
+    try {
+      await this.#setupClientInner(client);
+    } finally {
+      this.#clientsInSetup.delete(client);
+    }
+  }
+
+  async #setupClientInner(client: ClientEncrypted) {
+    const disconnectCount = this.#disconnectCount;
     const storage = client.dc === this.#client!.dc ? this.storage : new StorageOperations(this.storage.provider.branch(`${client.dc}${client.isMedia ? "_media" : ""}`));
     if (storage !== this.storage) {
       this.#branchStorages.add(storage);
@@ -1083,6 +1099,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         client.serverSalt = serverSalt;
       }
     }
+    if (this.isDisconnected || disconnectCount !== this.#disconnectCount) {
+      throw new ConnectionError("The connection is not open.");
+    }
     await client.connect();
     if (auth.authKey === null) {
       await this.#importAuthorization(client);
-- 
2.43.0


From 664c03620e5ef7aa0ed92984e428e8191fcbdb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 043/102] fix: report each authorization state once when
 signing in

---
 client/6_client.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 74d674b..e6760cc 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -513,9 +513,16 @@ export class Client<C extends Context = Context> extends Composer<C> implements
 
   #lastPropagatedAuthorizationState: boolean | null = null;
   async #propagateAuthorizationState(authorized: boolean) {
-    if (this.#lastPropagatedAuthorizationState !== authorized) {
-      await this.#handleCtxUpdate({ type: "authorizationState", authorizationState: { isAuthorized: authorized } });
+    const lastAuthorizationState = this.#lastPropagatedAuthorizationState;
+    if (lastAuthorizationState !== authorized) {
+      // handling the update might check the authorization again
       this.#lastPropagatedAuthorizationState = authorized;
+      try {
+        await this.#handleCtxUpdate({ type: "authorizationState", authorizationState: { isAuthorized: authorized } });
+      } catch (err) {
+        this.#lastPropagatedAuthorizationState = lastAuthorizationState;
+        throw err;
+      }
     }
   }
 
-- 
2.43.0


From dfa9d955c03a044a3db16c104d7c982de46c4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 044/102] fix: learn the account's identifier when the answer
 to signing in was lost

---
 client/0_storage_operations.ts | 6 +++++-
 client/6_client.ts             | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 171a4be..96a9b84 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -326,7 +326,11 @@ export class StorageOperations {
     if (this.#accountId !== null) {
       return this.#accountId;
     } else {
-      return this.#accountId = (await this.auth.get())?.userId ?? null;
+      const userId = (await this.auth.get())?.userId ?? null;
+      if (userId !== 0) {
+        this.#accountId = userId;
+      }
+      return userId;
     }
   }
 
diff --git a/client/6_client.ts b/client/6_client.ts
index e6760cc..9f8378f 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -599,6 +599,14 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     try {
       await this.#updateManager.fetchState("#checkAuthorization");
       const me = await this.#getMe();
+      if (this.storage.auth.mustGet().userId !== me.id) {
+        // the result of signing in was not received
+        await this.storage.auth.update((v) => {
+          v.userId = me.id;
+          v.isBot = me.isBot;
+        });
+        await this.storage.commit(true);
+      }
       await this.#propagateAuthorizationState(true);
       drop(this.#updateManager.recoverUpdateGap("#checkAuthorization"));
       return me;
-- 
2.43.0


From bcbab484381b46c446fb77790a7de80b4d6b420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 045/102] fix: handle updates from a worker one at a time

The dispatcher started to handle an update as soon as it arrived. Until the
first getMe was answered, every update asked for it on its own, and those that
arrived after the first answer overtook the ones still waiting for theirs.
They now go through a queue, as in a client in the same thread.
---
 client/6_client_dispatcher.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index a50455e..9ddb582 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -18,7 +18,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { getLogger, type Logger } from "../1_utilities.ts";
+import { getLogger, type Logger, Queue } from "../1_utilities.ts";
 import type { Api, Mtproto } from "../2_tl.ts";
 import type { DC } from "../3_transport.ts";
 import type { AlbumStoryList, Animation, AppSupport, Audio, AuthorizationSession, AvailableReactions, Birthday, BlockedUserList, BotAccessSettings, BotCommand, BotTokenCheckResult, BusinessAwayMessageSchedule, BusinessConnection, CallbackQueryAnswer, CallbackQueryQuestion, Chat, ChatActionType, ChatJoinResult, ChatListItem, ChatMember, ChatP, ChatPChannel, ChatPGroup, ChatPPrivate, ChatPSupergroup, ChatSettings, ClaimedGifts, CodeCheckResult, Community, CommunityP, ConnectedWebsite, Country, EmojiStatus, FailedInvitation, FileSource, Gift, GiftCollection, GiftPrivacy, ID, InactiveChat, InlineQueryAnswer, InlineQueryResult, InputBusinessRecipients, InputChecklistItem, InputEmojiStatus, InputGift, InputMedia, InputPollOption, InputPrivacyRule, InputRichText, InputSticker, InputStoryContent, InviteLink, JoinRequest, LeftChannelList, LinkPreview, LiveStreamChannel, Message, MessageAnimation, MessageAudio, MessageChecklist, MessageContact, MessageCounters, MessageDice, MessageDocument, MessageInvoice, MessageList, MessageLivePhoto, MessageLocation, MessagePhoto, MessagePoll, MessageReactionList, MessageRichText, MessageSticker, MessageText, MessageVenue, MessageVideo, MessageVideoNote, MessageViewer, MessageVoice, MiniAppInfo, NetworkStatistics, NewChatPrivacy, NotificationSettings, ParseMode, PasswordCheckResult, Poll, PollVoterList, PremiumSubscriptionDuration, PriceTag, PrivacyRule, PrivacySettingKey, ProfilePhotoList, Reaction, RecentActionsEntry, ReportReason, ReportResult, ResolvedInviteLink, RichText, SavedChats, SavedNotificationSound, SecretChat, SlowModeDuration, StarAmount, StarTransactionList, Sticker, StickerSet, StickerSetP, Story, StoryAlbum, SummarizedText, TextToTranslate, Timezone, TonTransactionList, Topic, TopicList, TopicListItem, TranslatedText, Translation, Update, User, VideoChat, VideoChatActive, VideoChatScheduled, VoiceTranscription } from "../3_types.ts";
@@ -88,6 +88,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
   #id: string;
   #L: Logger;
   #LsignIn: Logger;
+  #updateQueue = new Queue("ClientDispatcher/updates");
 
   // deno-lint-ignore no-explicit-any
   #pendingRequests = new Map<string, PromiseWithResolvers<any>>();
@@ -114,11 +115,13 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
       this.#pendingRequests.delete(response.id);
     } else {
       if (response.id === "") {
-        try {
-          await this.handleUpdate(this, response.data as Update);
-        } catch (err) {
-          this.#L.error("Error handling update:", err);
-        }
+        this.#updateQueue.add(async () => {
+          try {
+            await this.handleUpdate(this, response.data as Update);
+          } catch (err) {
+            this.#L.error("Error handling update:", err);
+          }
+        });
       } else {
         this.#pendingRequests.get(response.id)?.resolve(response.data);
         this.#pendingRequests.delete(response.id);
-- 
2.43.0


From d5e423313c40228d6c090dfb3345a34b213b5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 046/102] fix: do not hand errors of a worker's calls to the
 handlers twice

The client in the worker already asks the application's handlers about every
failed attempt of a call. The dispatcher asked them again about the last one,
with an attempt number of its own, and repeated the whole call if they agreed.
---
 client/6_client_dispatcher.ts | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 9ddb582..5db145d 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -184,18 +184,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
   }
 
   async #invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R> {
-    let n = 1;
-    while (true) {
-      try {
-        return await this.#dispatch("invoke", function_, params);
-      } catch (err) {
-        if (await this.#handleInvokeError(Object.freeze({ client: this, error: err, function: function_, n: n++ }), () => Promise.resolve(false))) {
-          continue;
-        } else {
-          throw err;
-        }
-      }
-    }
+    return await this.#dispatch("invoke", function_, params);
   }
 
   #handleInvokeError = skipInvoke<ClientDispatcher<C>>();
-- 
2.43.0


From 3ff3e94ba6226ca829c60adecaf3d669c0560174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 047/102] fix: refuse an srp_B that is out of range when
 proving a password

The server's value must be greater than zero and less than the prime, as the
SRP protocol requires and Telegram's own clients check.
---
 client/0_password.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/0_password.ts b/client/0_password.ts
index 33329dd..54bd973 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -136,6 +136,9 @@ export async function checkPassword(password_: string, ap: Api.account_Password)
 
   // g_b := srp_B
   const gB = intFromBytes(srpB, { byteOrder: "big", isSigned: false });
+  if (gB <= 0n || gB >= p) {
+    throw new TypeError("srpB is out of range.");
+  }
 
   // k := H(p | g)
   const k = intFromBytes(await h(concat([pad(p), pad(g)])), { byteOrder: "big", isSigned: false });
-- 
2.43.0


From bd23498ff2f1e624307da57be8ff2fc53cd9e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 048/102] fix: filters match updates and messages by their type

on("message:groupCreated"), on("secretTyping") and others never matched,
because a field named as the type was looked for.
---
 client/3_filters.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/3_filters.ts b/client/3_filters.ts
index 96588c5..4eb42ad 100644
--- a/client/3_filters.ts
+++ b/client/3_filters.ts
@@ -112,7 +112,7 @@ function matchParsed<T extends object>(type_: string, other: string[], value: T)
   let type = type_;
   if (other.length === 0 && type !== "update" && "update" in value && (value.update as { _: unknown })._ === type) {
     return true;
-  } else if (type !== "" && !(type in value)) {
+  } else if (type !== "" && (value as { type?: string }).type !== type) {
     return false;
   }
   if (type === "") {
@@ -131,8 +131,8 @@ function matchParsed<T extends object>(type_: string, other: string[], value: T)
   }
   const field = other[0];
   if (field) {
-    if (["message", "editedMessage", "scheduledMessage"].includes(type) && (value as Record<symbol | number | string, { type: "string" }>)[type]["type"] !== field) {
-      return false;
+    if (["message", "editedMessage", "scheduledMessage", "secretMessage"].includes(type)) {
+      return (value as Record<symbol | number | string, { type: "string" }>)[type]["type"] === field;
     } else if (!(field in (value as Record<symbol | number | string, object>)[type])) {
       return false;
     }
-- 
2.43.0


From 115899d317c520ad6f264b553fb54fd75ba6fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 049/102] fix: ctx.from of chosen inline results

---
 client/4_context.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/4_context.ts b/client/4_context.ts
index 27f0402..0838169 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -393,6 +393,8 @@ export class Context {
         return this.update.callbackQuery.from;
       case "inlineQuery":
         return this.update.inlineQuery.from;
+      case "chosenInlineResult":
+        return this.update.chosenInlineResult.from;
       case "chatMember":
         return this.update.chatMember.from;
       case "myChatMember":
-- 
2.43.0


From 953f9a3a9d2026fad0ad4ec974657da23b14d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 050/102] fix: the user of a callback query is the one who
 pressed the button

Context methods like blockUser acted on the author of the message.
---
 client/4_context.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/4_context.ts b/client/4_context.ts
index 0838169..353fa64 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -277,10 +277,10 @@ export class Context {
   }
 
   #mustGetUserId() {
-    if (this.msg?.from) {
-      return this.msg.from.id;
-    } else if (this.update.type === "callbackQuery") {
+    if (this.update.type === "callbackQuery") {
       return this.update.callbackQuery.from.id;
+    } else if (this.msg?.from) {
+      return this.msg.from.id;
     } else if (this.update.type === "chosenInlineResult") {
       return this.update.chosenInlineResult.from.id;
     } else if (this.update.type === "joinRequest") {
-- 
2.43.0


From de0263c0e90dd3b5c863bb77ac219f14a2109547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 051/102] fix: ctx.searchMessages does not change its
 parameters

---
 client/4_context.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/4_context.ts b/client/4_context.ts
index 353fa64..2bd5ebd 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -1714,9 +1714,7 @@ export class Context {
   /** Context-aware alias for {@link Client.searchMessages}. */
   async searchMessages(params?: Omit<SearchMessagesParams, "chatId">): Promise<MessageList> {
     const chatId = this.#mustGetChatId();
-    params ??= {};
-    (params as SearchMessagesParams).chatId = chatId;
-    return await this.client.searchMessages(params);
+    return await this.client.searchMessages({ ...params, chatId });
   }
 
   /** Context-aware alias for {@link Client.sendChatAction}. */
-- 
2.43.0


From f4c03de2aac77777e7ab408158b874e225a08767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 052/102] fix: decode all numeric HTML entities

Code points above U+FFFF and upper case hexadecimal digits were misread.
---
 client/0_html.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/0_html.ts b/client/0_html.ts
index 8969bdd..9b795f4 100644
--- a/client/0_html.ts
+++ b/client/0_html.ts
@@ -397,7 +397,7 @@ function decodeEntity(html: string[], i: number): [string, number] {
       code = parseInt(code_);
     }
     if (!isNaN(code) && code !== 0 && code < 0x10ffff && end - i < 10) {
-      text = String.fromCharCode(code);
+      text = String.fromCodePoint(code);
     } else {
       fallback = true;
     }
@@ -439,7 +439,7 @@ function isDigit(string: string) {
   return "0" <= string && string <= "9";
 }
 function isHex(string: string) {
-  return isDigit(string) || ("a" <= string && string <= "f");
+  return isDigit(string) || ("a" <= string && string <= "f") || ("A" <= string && string <= "F");
 }
 function isSpace(string: string) {
   return string === " " || string === "\t" || string === "\r" || string === "\n" || string === "\0" || string === "\v";
-- 
2.43.0


From 8acf434f631e794e638005b775ed7db91145ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 053/102] fix: Markdown code blocks without a language are pre
 entities

---
 client/0_markdown.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/client/0_markdown.ts b/client/0_markdown.ts
index f4a057e..75d4896 100644
--- a/client/0_markdown.ts
+++ b/client/0_markdown.ts
@@ -231,13 +231,12 @@ export function parseMarkdown(text_: string, isSecret?: boolean): [string, (Mess
         case CODEPOINTS["`"]:
           if (text[i + 1] === CODEPOINTS["`"] && text[i + 2] === CODEPOINTS["`"]) {
             i += 3;
-            type = "code";
+            type = "pre";
             let languageEnd = i;
             while (text[languageEnd] !== undefined && !isWhitespace(text[languageEnd]) && text[languageEnd] !== CODEPOINTS["`"]) {
               languageEnd++;
             }
             if (i !== languageEnd && languageEnd < text.byteLength && text[languageEnd] !== CODEPOINTS["`"]) {
-              type = "pre";
               argument = text.slice(i, languageEnd);
               i = languageEnd;
             }
-- 
2.43.0


From 2757fc0fb29f67f2cadf2a31d5f75271fcd14b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 054/102] fix: store usernames of chats under the case they are
 looked up with

---
 client/2_update_manager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index fd643bf..d6725a9 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -247,12 +247,12 @@ export class UpdateManager {
     this.#c.messageStorage.setPeer(chat);
 
     if ("username" in chat && chat.username) {
-      this.#c.messageStorage.usernames.set([chat.username], [Api.peerToChatId(chat), new Date()]);
+      this.#c.messageStorage.usernames.set([chat.username.toLowerCase()], [Api.peerToChatId(chat), new Date()]);
     }
     if ("usernames" in chat && chat.usernames) {
       const value: [number, Date] = [Api.peerToChatId(chat), new Date()];
       for (const username of chat.usernames) {
-        this.#c.messageStorage.usernames.set([username.username], value);
+        this.#c.messageStorage.usernames.set([username.username.toLowerCase()], value);
       }
     }
   }
@@ -321,12 +321,12 @@ export class UpdateManager {
     this.#c.messageStorage.setPeer(user);
 
     if (user.username) {
-      this.#c.messageStorage.usernames.set([user.username], [Api.peerToChatId(user), new Date()]);
+      this.#c.messageStorage.usernames.set([user.username.toLowerCase()], [Api.peerToChatId(user), new Date()]);
     }
     if (user.usernames) {
       const value: [number, Date] = [Api.peerToChatId(user), new Date()];
       for (const username of user.usernames) {
-        this.#c.messageStorage.usernames.set([username.username], value);
+        this.#c.messageStorage.usernames.set([username.username.toLowerCase()], value);
       }
     }
   }
-- 
2.43.0


From 3475d9cd23e7f510aad0e236629d3d773df5606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 055/102] fix: forget the secondary usernames of a user who has
 no usernames anymore

---
 client/6_client.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 9f8378f..8b5884a 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -787,6 +787,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           }
         } else {
           delete peer_[0].username;
+          delete peer_[0].also;
         }
         this.messageStorage.setPeer2(peer_[0], peer_[1]);
       }
-- 
2.43.0


From 531348b129d5d582f542a93844d0a29bd4d935aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 056/102] fix: views or forwards of a message that has not both
 are not lost

---
 client/2_reaction_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/2_reaction_manager.ts b/client/2_reaction_manager.ts
index 72c723e..b3534de 100644
--- a/client/2_reaction_manager.ts
+++ b/client/2_reaction_manager.ts
@@ -80,9 +80,11 @@ export class ReactionManager implements UpdateProcessor<ReactionManagerUpdate, t
       if (Api.is("message", message)) {
         if ("views" in update) {
           message.views = update.views;
+          message.forwards ??= 0; // both are behind the same flag
         }
         if ("forwards" in update) {
           message.forwards = update.forwards;
+          message.views ??= 0; // both are behind the same flag
         }
         const views = message.views ?? 0;
         const forwards = message.forwards ?? 0;
-- 
2.43.0


From a4976c706a25421031c882f48642fbad88160355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 057/102] fix: stored updates can be delivered after a restart
 that forgot their chats

---
 client/0_storage_operations.ts |  4 ++++
 client/0_utilities.ts          | 23 +++++++++++++++++++++++
 client/2_update_manager.ts     | 31 ++++++++++++++++++++++++++++---
 3 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 96a9b84..5335b1d 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -98,6 +98,8 @@ export class StorageOperations {
   auth: StorageAuth;
   channelPts: StorageMap<[bigint], number>;
   peers: StorageMap<[number], [ChatP, bigint]>;
+  /** The peers mentioned in the stored updates. */
+  updatePeers: StorageMap<[number], [ChatP, bigint]>;
   communities: StorageMap<[number], Api.community | Api.communityForbidden>;
   usernames: StorageMap<[string], [number, Date]>;
   phoneNumbers: StorageMap<[string], [number, Date]>;
@@ -116,6 +118,7 @@ export class StorageOperations {
     this.auth = this.#addValue(new StorageAuth(storage));
     this.channelPts = this.#addMap(new StorageMap(storage, "channelPts"));
     this.peers = this.#addMap(new StorageMap(storage, "peers"));
+    this.updatePeers = this.#addMap(new StorageMap(storage, "updatePeers"));
     this.communities = this.#addMap(new StorageMap(storage, "communities"));
     this.usernames = this.#addMap(new StorageMap(storage, "usernames"));
     this.phoneNumbers = this.#addMap(new StorageMap(storage, "phoneNumbers"));
@@ -519,6 +522,7 @@ export class StorageOperations {
 
   async deleteUpdates() {
     await this.#deleteByPrefix(K.updates.all());
+    await this.updatePeers.clear();
   }
 
   async getUpdateBoxIds(): Promise<Set<bigint>> {
diff --git a/client/0_utilities.ts b/client/0_utilities.ts
index 3ae41ec..b04e662 100644
--- a/client/0_utilities.ts
+++ b/client/0_utilities.ts
@@ -270,3 +270,26 @@ export function extractTransferrableObjects(value: unknown) {
   }
   return transferrableObjects;
 }
+
+const USER_ID_FIELDS = new Set(["user_id", "actor_id", "admin_id", "bot_id", "inviter_id", "kicked_by", "promoted_by", "receiver_id", "via_bot_id", "via_business_bot_id"]);
+/** Returns the identifiers of the chats mentioned in a TL object. */
+export function getMentionedChatIds(object: unknown, chatIds: Set<number> = new Set()): Set<number> {
+  if (typeof object !== "object" || object === null || object instanceof Uint8Array) {
+    return chatIds;
+  }
+  for (const [key, value] of Object.entries(object)) {
+    if (typeof value !== "bigint") {
+      if (key === "users" && Array.isArray(value)) {
+        value.filter((v) => typeof v === "bigint").forEach((v) => chatIds.add(Number(v)));
+      }
+      getMentionedChatIds(value, chatIds);
+    } else if (key === "channel_id") {
+      chatIds.add(Api.peerToChatId({ _: "peerChannel", channel_id: value }));
+    } else if (key === "chat_id") {
+      chatIds.add(Api.peerToChatId({ _: "peerChat", chat_id: value }));
+    } else if (USER_ID_FIELDS.has(key)) {
+      chatIds.add(Number(value));
+    }
+  }
+  return chatIds;
+}
diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index d6725a9..d128acb 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -26,6 +26,7 @@ import { PersistentTimestampInvalid } from "../3_errors.ts";
 import type { ID } from "../3_types.ts";
 import { CHANNEL_DIFFERENCE_LIMIT_BOT, CHANNEL_DIFFERENCE_LIMIT_USER } from "../4_constants.ts";
 import type { OpenChatParams } from "./0_params.ts";
+import { getMentionedChatIds } from "./0_utilities.ts";
 import type { C } from "./1_types.ts";
 
 type UpdateHandler = (update: Api.Update) => Promise<(() => Promise<unknown>)>;
@@ -413,7 +414,7 @@ export class UpdateManager {
     }
 
     if (this.#c.guaranteeUpdateDelivery) {
-      await this.#c.storage.setUpdate(channelId, update);
+      await this.#storeUpdate(channelId, update);
     }
     if (update.pts !== 0) {
       await this.#setChannelPts(channelId, update.pts);
@@ -462,7 +463,7 @@ export class UpdateManager {
     }
 
     if (this.#c.guaranteeUpdateDelivery) {
-      await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
+      await this.#storeUpdate(UpdateManager.MAIN_BOX_ID, update);
     }
     if (update.pts !== 0) {
       await this.#setUpdatePts(update.pts);
@@ -495,7 +496,7 @@ export class UpdateManager {
     }
 
     if (this.#c.guaranteeUpdateDelivery) {
-      await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
+      await this.#storeUpdate(UpdateManager.MAIN_BOX_ID, update);
     }
     if (update.qts !== 0) {
       await this.#setUpdateQts(update.qts);
@@ -936,6 +937,29 @@ export class UpdateManager {
     return lastTimeout;
   }
 
+  async #storeUpdate(boxId: bigint, update: Api.Update) {
+    // they might be unknown by the time the update is handled
+    for (const chatId of getMentionedChatIds(update)) {
+      const peer = await this.#c.messageStorage.peers.get([chatId]);
+      if (peer !== null) {
+        this.#c.storage.updatePeers.set([chatId], peer);
+      }
+    }
+    await this.#c.storage.updatePeers.commit();
+    await this.#c.storage.setUpdate(boxId, update);
+  }
+
+  async #loadUpdatePeers(update: Api.Update) {
+    for (const chatId of getMentionedChatIds(update)) {
+      if (await this.#c.messageStorage.peers.get([chatId]) === null) {
+        const peer = await this.#c.storage.updatePeers.get([chatId]);
+        if (peer !== null) {
+          this.#c.messageStorage.peers.set([chatId], peer);
+        }
+      }
+    }
+  }
+
   #handleUpdatesSet = new Set<bigint>();
   async replayStoredUpdates() {
     for (const boxId of await this.#c.storage.getUpdateBoxIds()) {
@@ -955,6 +979,7 @@ export class UpdateManager {
           break;
         }
         const [key, update] = maybeUpdate;
+        await this.#loadUpdatePeers(update);
         let handled = false;
         for (let i = 0; i < 100; ++i) {
           try {
-- 
2.43.0


From 4bc3132838c20c4c0d7c8a79cd32b84ca47417ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 058/102] fix: stored messages can be read after a restart

---
 client/3_message_manager.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index 6029a45..fca6226 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -29,7 +29,7 @@ import { parseHtml } from "./0_html.ts";
 import { parseMarkdown } from "./0_markdown.ts";
 import type { _BusinessConnectionIdCommon, _ReplyMarkupCommon, _SendCommon, _SpoilCommon, _UploadCommon, AddReactionParams, DeleteMessagesParams, EditInlineMessageCaptionParams, EditInlineMessageMediaParams, EditInlineMessageRichTextParams, EditInlineMessageTextParams, EditMessageCaptionParams, EditMessageLiveLocationParams, EditMessageMediaParams, EditMessageReplyMarkupParams, EditMessageTextParams, ForwardMessagesParams, GetBlockedUsersParams, GetHistoryParams, GetMessageReactionsParams, GetSavedChatsParams, GetSavedMessagesParams, OpenMiniAppParams, PinMessageParams, ReportEphemeralMessageParams, SaveDraftParams, SearchMessagesParams, SendAnimationParams, SendAudioParams, SendChatActionParams, SendChecklistParams as SendChecklistParams, SendContactParams, SendDiceParams, SendDocumentParams, SendInvoiceParams, SendLocationParams, SendMediaGroupParams, SendMessageDraftParams, SendMessageParams, SendPhotoParams, SendPollParams, SendRichTextDraftParams, SendRichTextParams, SendStickerParams, SendVenueParams, SendVideoNoteParams, SendVideoParams, SendVoiceParams, SetReactionsParams, StartBotParams, StopPollParams, SummarizeTextParams, TranslateTextParams, UnpinMessageParams, UnpinMessagesParams } from "./0_params.ts";
 import type { UpdateProcessor } from "./0_update_processor.ts";
-import { canBeInputChannel, checkArray, checkMessageId, checkPhotoName, checkStickerName, getLimit, getUsername, isHttpUrl, toInputChannel } from "./0_utilities.ts";
+import { canBeInputChannel, checkArray, checkMessageId, checkPhotoName, checkStickerName, getLimit, getMentionedChatIds, getUsername, isHttpUrl, toInputChannel } from "./0_utilities.ts";
 import type { C as C_ } from "./1_types.ts";
 import type { FileManager } from "./2_file_manager.ts";
 
@@ -93,6 +93,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
         shouldFetch = true;
         break;
       } else {
+        await this.#loadMentionedChats(message);
         messages_.push(message);
       }
     }
@@ -119,6 +120,13 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     return messages;
   }
 
+  /** Loads the chats mentioned in a stored message, which might not be in the memory yet. */
+  async #loadMentionedChats(message: Api.Message) {
+    for (const chatId of getMentionedChatIds(message)) {
+      await this.#c.messageStorage.peers.get([chatId]);
+    }
+  }
+
   async getMessageWithReply(chatId: ID, messageId: number): Promise<Message | null> {
     const message = await this.getMessage(chatId, messageId);
     if (message !== null && message.replyToMessageId) {
-- 
2.43.0


From d89839ce4e793c9f9a220e1e803791487c9a246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 059/102] fix: deleting scheduled, ephemeral and business
 messages does not forget ordinary ones

---
 client/6_client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 8b5884a..602d991 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -880,7 +880,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           try {
             await this.#handleCtxUpdate(update);
           } finally {
-            if ("deletedMessages" in update) {
+            if ("deletedMessages" in update && !update.isScheduled && !update.isEphemeral && update.businessConnectionId === undefined) {
               for (const { chatId, messageId } of update.deletedMessages) {
                 await this.messageStorage.setMessage(chatId, messageId, null);
               }
-- 
2.43.0


From 57399e2eabdf5e2b55677299f573f7560351e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 060/102] fix: updates about messages are not lost with, or
 given the wrong, replied messages

---
 types/9_message.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index dd7c51e..9c4c5bc 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -773,8 +773,16 @@ async function getReply(message_: Api.message | Api.messageService | Api.ephemer
 
     threadId = message_.reply_to.reply_to_top_id;
 
-    if (getMessage && message_.reply_to.reply_to_msg_id) {
-      replyToMessage = await getMessage(chat.id, message_.reply_to.reply_to_msg_id) || undefined;
+    // scheduled and ephemeral messages are numbered separately
+    const isNumberedSeparately = message_.reply_to.reply_to_scheduled || message_.reply_to.reply_to_ephemeral;
+    if (getMessage && message_.reply_to.reply_to_msg_id && !isNumberedSeparately) {
+      // messages of other chats might be replied to
+      const chatId = message_.reply_to.reply_to_peer_id ? Api.peerToChatId(message_.reply_to.reply_to_peer_id) : chat.id;
+      try {
+        replyToMessage = await getMessage(chatId, message_.reply_to.reply_to_msg_id) || undefined;
+      } catch (err) {
+        L.error("failed to get replied message:", err);
+      }
       if (!replyToMessage) {
         L.warning("couldn't get replied message");
       }
-- 
2.43.0


From abedbf9e17f204cae3acdca78aacad903eff23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 061/102] fix: do not store scheduled and business messages as
 ordinary ones

---
 client/2_update_manager.ts | 17 ++++++++++++++---
 client/6_client.ts         |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index d128acb..2398100 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -21,7 +21,7 @@
 import { delay, SECOND, unreachable } from "../0_deps.ts";
 import { InputError } from "../0_errors.ts";
 import { getLogger, type Logger, Mutex, Queue, ZERO_CHANNEL_ID } from "../1_utilities.ts";
-import { Api } from "../2_tl.ts";
+import { Api, type Mtproto } from "../2_tl.ts";
 import { PersistentTimestampInvalid } from "../3_errors.ts";
 import type { ID } from "../3_types.ts";
 import { CHANNEL_DIFFERENCE_LIMIT_BOT, CHANNEL_DIFFERENCE_LIMIT_USER } from "../4_constants.ts";
@@ -258,7 +258,18 @@ export class UpdateManager {
     }
   }
 
-  async processResult(result: Api.DeserializedType) {
+  /** Whether the messages returned by a function are not numbered like the other messages of their chats. */
+  static returnsSeparatelyNumberedMessages(function_: Api.AnyFunction | Mtproto.ping): boolean {
+    if (function_._ === "invokeWithBusinessConnection") {
+      return true;
+    }
+    if ("query" in function_ && typeof function_.query === "object" && function_.query !== null) {
+      return UpdateManager.returnsSeparatelyNumberedMessages(function_.query as Api.AnyFunction);
+    }
+    return ["messages.getScheduledHistory", "messages.getScheduledMessages", "messages.getQuickReplies", "messages.getQuickReplyMessages"].includes(function_._);
+  }
+
+  async processResult(result: Api.DeserializedType, function_: Api.AnyFunction | Mtproto.ping) {
     if (Array.isArray(result)) { // users.getUsers, bots.getAdminedBots
       if (Api.isOfEnum("User", result[0])) {
         for (const user of result) {
@@ -292,7 +303,7 @@ export class UpdateManager {
         }
       }
 
-      if ("messages" in result && Array.isArray(result.messages)) {
+      if ("messages" in result && Array.isArray(result.messages) && !UpdateManager.returnsSeparatelyNumberedMessages(function_)) {
         for (const message of result.messages) {
           if (Api.is("message", message) || Api.is("messageService", message)) {
             await this.#c.messageStorage.setMessage(Api.peerToChatId(message.peer_id), message.id, message);
diff --git a/client/6_client.ts b/client/6_client.ts
index 602d991..f29702b 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1064,7 +1064,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         const result = await client.invoke(function_);
         if (main) {
           try {
-            await this.#updateManager.processResult(result as Api.DeserializedType);
+            await this.#updateManager.processResult(result as Api.DeserializedType, function_);
           } catch (err) {
             this.#L.error("failed to process result:", err);
           }
-- 
2.43.0


From f34a5e39b1e38ccaa5cd6e6a86dd89ecc967c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 062/102] fix: forget the stored messages of a channel when its
 update gap is too long

---
 client/0_storage_operations.ts | 4 ++++
 client/2_update_manager.ts     | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 5335b1d..9dd91ce 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -303,6 +303,10 @@ export class StorageOperations {
     await this.#deleteByPrefix([K.messages.P("messages")]);
   }
 
+  async deleteChannelMessages(channelId: bigint) {
+    await this.#deleteByPrefix(K.messages.messages(Api.getChannelChatId(channelId)));
+  }
+
   getMessageChat(messageId: number): MaybePromise<number | null> {
     return this.#storage.get<number>(K.messages.messageRef(messageId));
   }
diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 2398100..5679b4b 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -920,8 +920,9 @@ export class UpdateManager {
           break;
         }
       } else if (Api.is("updates.channelDifferenceTooLong", difference)) {
-        // TODO: invalidate messages
         this.#LrecoverChannelUpdateGap.debug("received channelDifferenceTooLong");
+        // the stored messages might have been edited or deleted
+        this.getHandleUpdateQueue(channelId).add(() => this.#c.messageStorage.deleteChannelMessages(channelId));
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-- 
2.43.0


From 75e2078f9e268b57bde48e2a43d99664dfb46031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 063/102] fix: messages of a channel from those the client does
 not know are not lost

---
 client/2_update_manager.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 5679b4b..ef8cd8c 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -419,6 +419,11 @@ export class UpdateManager {
       }
       let currentPts: number | null = await this.#getChannelPtsWithDropPendingUpdatesCheck(channelId);
       currentPts ??= update.pts - ptsCount;
+      if (checkGap && currentPts < update.pts && await this.#needsGetDifference(update)) {
+        await this.#setChannelPts(channelId, currentPts);
+        await this.#recoverChannelUpdateGapInner(channelId, "needsGetDifference");
+        currentPts = await this.#c.storage.channelPts.get([channelId]) ?? currentPts;
+      }
       if (currentPts + ptsCount > update.pts) {
         return;
       }
@@ -1029,7 +1034,7 @@ export class UpdateManager {
     }
   }
 
-  async #needsGetDifference(update: PtsUpdate) {
+  async #needsGetDifference(update: PtsUpdate | ChannelPtsUpdate) {
     const chatIds = this.#collectChatIds(update);
     if (!chatIds.size) {
       return false;
@@ -1037,7 +1042,7 @@ export class UpdateManager {
     return (await Promise.all(chatIds.values().map((v) => this.#c.messageStorage.peers.get([v])))).some((v) => !v);
   }
 
-  #collectChatIds(object: PtsUpdate | Api.MessageMedia | Api.MessageFwdHeader): Set<number> {
+  #collectChatIds(object: PtsUpdate | ChannelPtsUpdate | Api.MessageMedia | Api.MessageFwdHeader): Set<number> {
     const chatIds = new Set<number>();
 
     if (Api.is("messageFwdHeader", object)) {
-- 
2.43.0


From 622da213eec9c81baa165663028f2ab1a36183b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 064/102] fix: messages with expired photos are received

---
 types/9_message.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index 9c4c5bc..b0e46f1 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -1141,11 +1141,9 @@ export async function constructMessage(
 
   let m: Message | null = null;
 
-  if (Api.is("messageMediaPhoto", message_.media)) {
-    if (!message_.media.photo) {
-      unreachable();
-    }
-    const photo = constructPhoto(Api.as("photo", message_.media.photo));
+  // the photo is missing when it has expired
+  if (Api.is("messageMediaPhoto", message_.media) && Api.is("photo", message_.media.photo)) {
+    const photo = constructPhoto(message_.media.photo);
     if (message_.media.video) {
       const video_ = Api.as("document", message_.media.video);
       const fileId: FileId = {
-- 
2.43.0


From 994a4fe67df94cb4763bb10316793ac461b297ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 065/102] fix: service messages on chat photos that are gone
 are received

---
 types/9_message.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index b0e46f1..3e22646 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -834,8 +834,10 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
     const newChatTitle = message_.action.title;
     return { type: "newChatTitle", ...message, newChatTitle };
   } else if (Api.is("messageActionChatEditPhoto", message_.action)) {
-    const newChatPhoto = constructPhoto(Api.as("photo", message_.action.photo));
-    return { type: "newChatPhoto", ...message, newChatPhoto };
+    if (Api.is("photo", message_.action.photo)) {
+      const newChatPhoto = constructPhoto(message_.action.photo);
+      return { type: "newChatPhoto", ...message, newChatPhoto };
+    }
   } else if (Api.is("messageActionChatDeletePhoto", message_.action)) {
     return { type: "deletedChatPhoto", ...message };
   } else if (Api.is("messageActionChatCreate", message_.action)) {
-- 
2.43.0


From 2d94a0ed7f8dcf7be869bcf6a2ba8405a72bd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 066/102] fix: service messages on shared chats are received

---
 types/9_message.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index 3e22646..885e2c5 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -871,9 +871,11 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
       return { type: "pinnedMessage", ...message, pinnedMessage };
     }
   } else if (Api.is("messageActionRequestedPeer", message_.action)) {
-    const user = Api.as("peerUser", message_.action.peers[0]);
-    const userShared = { requestId: message_.action.button_id, userId: Number(user.user_id) };
-    return { type: "userShared", ...message, userShared };
+    const user = message_.action.peers[0];
+    if (Api.is("peerUser", user)) {
+      const userShared = { requestId: message_.action.button_id, userId: Number(user.user_id) };
+      return { type: "userShared", ...message, userShared };
+    }
   } else if (Api.is("messageActionBotAllowed", message_.action)) {
     const miniAppName = message_.action.app ? Api.as("botApp", message_.action.app).title : undefined;
     const writeAccessAllowed = { miniAppName };
-- 
2.43.0


From ee5829f3855d38b1e5d2121a6d0c434bae733547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 067/102] fix: hiding or showing the general topic is not
 reported as reopening it

---
 types/9_message.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index 885e2c5..72fedf8 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -896,7 +896,7 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
         customEmojiId: message_.action.icon_emoji_id ? String(message_.action.icon_emoji_id) : undefined,
       };
       return { type: "forumTopicEdited", ...message, forumTopicEdited };
-    } else {
+    } else if (message_.action.closed !== undefined) {
       return { type: "forumTopicReopened", ...message };
     }
   } else if (Api.is("messageActionGroupCallScheduled", message_.action)) {
-- 
2.43.0


From f948b432fdcac4e2e249a89fd1c70dad12c13a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 068/102] fix: video chats ended at once are not reported as
 started

---
 types/9_message.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index 72fedf8..391c679 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -903,7 +903,7 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
     const videoChatScheduled = { startDate: message_.action.schedule_date };
     return { type: "videoChatScheduled", ...message, videoChatScheduled };
   } else if (Api.is("messageActionGroupCall", message_.action)) {
-    if (message_.action.duration) {
+    if (message_.action.duration !== undefined) {
       const videoChatEnded = { duration: message_.action.duration };
 
       return { type: "videoChatEnded", ...message, videoChatEnded };
-- 
2.43.0


From e48877f0ea34d8a35ee22c3c9d7d4282dfeb48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 069/102] fix: checklists with items checked on behalf of a
 chat are received

---
 types/3_checklist_item.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/types/3_checklist_item.ts b/types/3_checklist_item.ts
index fee59b1..a11843f 100644
--- a/types/3_checklist_item.ts
+++ b/types/3_checklist_item.ts
@@ -18,7 +18,6 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { unreachable } from "../0_deps.ts";
 import { cleanObject } from "../1_utilities.ts";
 import type { Api } from "../2_tl.ts";
 import type { PeerGetter } from "./1_chat_p.ts";
@@ -55,8 +54,8 @@ export interface ChecklistItemChecked {
   entities?: MessageEntity[];
   /** A point in time when the checklist item was checked. */
   checkedAt: number;
-  /** The user who checked the item. */
-  checkedBy: User;
+  /** The user who checked the item. Unset if the item was checked on behalf of a chat. */
+  checkedBy?: User;
 }
 
 /** Any type of checklist item. */
@@ -70,9 +69,6 @@ export function constructChecklistItem(todoItem: Api.todoItem, completions: Api.
   const completion = completions.find((v) => v.id === todoItem.id);
   if (completion) {
     const peer = getPeer(completion.completed_by);
-    if (!peer || peer[0].type !== "private") {
-      unreachable();
-    }
 
     return cleanObject({
       type: "checked",
@@ -80,7 +76,7 @@ export function constructChecklistItem(todoItem: Api.todoItem, completions: Api.
       text,
       entities,
       checkedAt: completion.date,
-      checkedBy: constructUser2(peer[0]),
+      checkedBy: peer && peer[0].type === "private" ? constructUser2(peer[0]) : undefined,
     });
   } else {
     return cleanObject({
-- 
2.43.0


From 2cdf73c86ef6a6838b1986741b0529cfb618b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 070/102] fix: service messages of business connections are
 received as such

---
 types/9_message.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index 391c679..575ec22 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -792,7 +792,7 @@ async function getReply(message_: Api.message | Api.messageService | Api.ephemer
   return { replyToMessage, threadId, isTopicMessage };
 }
 
-async function constructServiceMessage(message_: Api.messageService, chat: ChatP, getPeer: PeerGetter, getMessage: Message_MessageGetter, getStickerSetName: StickerSetNameGetter, getReply_: boolean, getCommunity: CommunityGetter): Promise<Message> {
+async function constructServiceMessage(message_: Api.messageService, chat: ChatP, getPeer: PeerGetter, getMessage: Message_MessageGetter, getStickerSetName: StickerSetNameGetter, getReply_: boolean, getCommunity: CommunityGetter, business?: { connectionId: string; replyToMessage?: Api.Message }): Promise<Message> {
   const message: _MessageBase = {
     isOutgoing: message_.out ?? false,
     id: message_.id,
@@ -806,7 +806,13 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
     message.threadId = message_.reply_to.reply_to_top_id;
     message.replyToMessageId = message_.reply_to.reply_to_msg_id;
   }
-  if (getReply_ && message_.reply_to) {
+  if (business) {
+    message.businessConnectionId = business.connectionId;
+    if (business.replyToMessage) {
+      message.replyToMessageId = business.replyToMessage.id;
+      message.replyToMessage = await constructMessage(business.replyToMessage, getPeer, getMessage, getStickerSetName, getCommunity, false, { connectionId: business.connectionId });
+    }
+  } else if (getReply_ && message_.reply_to) {
     Object.assign(message, await getReply(message_, chat, getMessage));
   }
 
@@ -865,7 +871,7 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
     const chatMigratedFrom = Number(-message_.action.chat_id);
     return { type: "chatMigratedFrom", ...message, chatMigratedFrom };
   } else if (Api.is("messageActionPinMessage", message_.action)) {
-    const { replyToMessage } = await getReply(message_, chat, getMessage);
+    const { replyToMessage } = business ? message : await getReply(message_, chat, getMessage);
     if (replyToMessage) {
       const pinnedMessage = replyToMessage;
       return { type: "pinnedMessage", ...message, pinnedMessage };
@@ -987,7 +993,7 @@ export async function constructMessage(
   }
 
   if (Api.is("messageService", message_)) {
-    return cleanObject(await constructServiceMessage(message_, chat_, getPeer, getMessage, getStickerSetName, getReply_, getCommunity));
+    return cleanObject(await constructServiceMessage(message_, chat_, getPeer, getMessage, getStickerSetName, getReply_, getCommunity, business));
   }
 
   const message: _MessageBase = {
-- 
2.43.0


From 8ac58fdcf50e219ba0cfb194bf87c9a779f57422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 071/102] fix: callback queries from messages that are gone are
 received

---
 types/A_callback_query.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/types/A_callback_query.ts b/types/A_callback_query.ts
index d827aea..e3821da 100644
--- a/types/A_callback_query.ts
+++ b/types/A_callback_query.ts
@@ -20,20 +20,22 @@
 
 import { unreachable } from "../0_deps.ts";
 import { InputError } from "../0_errors.ts";
-import { base64DecodeUrlSafe, base64EncodeUrlSafe, cleanObject, decodeText } from "../1_utilities.ts";
+import { base64DecodeUrlSafe, base64EncodeUrlSafe, cleanObject, decodeText, getLogger } from "../1_utilities.ts";
 import { Api } from "../2_tl.ts";
 import type { PeerGetter } from "./1_chat_p.ts";
 import type { StickerSetNameGetter } from "./1_sticker.ts";
 import { constructUser2, type User } from "./2_user.ts";
 import { type CommunityGetter, constructMessage, type Message, type MessageGetter } from "./9_message.ts";
 
+const L = getLogger("CallbackQuery");
+
 /** A received callback query. */
 export interface CallbackQuery {
   /** The identifier of the callback query. */
   id: string;
   /** The user who made the callback query. */
   from: User;
-  /** The message from which the callback query was made. Unset if made from an inline result message. */
+  /** The message from which the callback query was made. Unset if made from an inline result message, or if the message is not accessible anymore. */
   message?: Message;
   /** The identifier of the inline result message from which the callback query was made. Unset if made from a message not originating from an inline query result. */
   inlineMessageId?: string;
@@ -71,9 +73,11 @@ export async function constructCallbackQuery(callbackQuery: Api.updateBotCallbac
   const data = callbackQuery.data !== undefined ? decodeText(callbackQuery.data) : undefined;
   const chatInstance = Api.is("updateEphemeralBotCallbackQuery", callbackQuery) ? undefined : callbackQuery.chat_instance === 0n ? "" : String(callbackQuery.chat_instance);
   if (Api.is("updateBotCallbackQuery", callbackQuery)) {
-    const message = await getMessage(Api.peerToChatId(callbackQuery.peer), Number(callbackQuery.msg_id));
-    if (message === null) {
-      unreachable();
+    let message: Message | undefined;
+    try {
+      message = await getMessage(Api.peerToChatId(callbackQuery.peer), Number(callbackQuery.msg_id)) ?? undefined;
+    } catch (err) {
+      L.error("failed to get the message of a callback query:", err);
     }
     return cleanObject({ id, from: user, message, chatInstance, data, gameShortName });
   } else if (Api.is("updateEphemeralBotCallbackQuery", callbackQuery)) {
-- 
2.43.0


From 2730ee3c67b3eef5a993e5904bfcdcd97dc2d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 072/102] fix: messages with buttons that open user profiles
 are received

---
 types/1_inline_keyboard_button.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types/1_inline_keyboard_button.ts b/types/1_inline_keyboard_button.ts
index 0da12e7..2490637 100644
--- a/types/1_inline_keyboard_button.ts
+++ b/types/1_inline_keyboard_button.ts
@@ -183,6 +183,8 @@ export function constructInlineKeyboardButton(button_: Api.KeyboardButton): Inli
     return cleanObject({ type: "callbackGame", text, style });
   } else if (Api.is("keyboardButtonCopy", button_)) {
     return cleanObject({ type: "copy", text, style, textToCopy: button_.copy_text });
+  } else if (Api.is("keyboardButtonUserProfile", button_)) {
+    return cleanObject({ type: "url", text, style, url: `tg://user?id=${button_.user_id}` });
   } else if (Api.is("keyboardButtonRequestPeer", button_)) {
     unreachable();
   } else {
-- 
2.43.0


From 2f46c32862a3e0dcd8175772ea34f9d59ae2df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 073/102] fix: the placeholders of received keyboards are told

---
 types/2_reply_markup.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/2_reply_markup.ts b/types/2_reply_markup.ts
index bcec1e8..2937384 100644
--- a/types/2_reply_markup.ts
+++ b/types/2_reply_markup.ts
@@ -75,14 +75,15 @@ function constructReplyKeyboardMarkup(keyboard_: Api.replyKeyboardMarkup): Reply
     }
     rows.push(row);
   }
-  return {
+  return cleanObject({
     type: "keyboard",
     isResized: keyboard_.resize || false,
     isOneTime: keyboard_.single_use || false,
     isSelective: keyboard_.selective || false,
     isPersistent: keyboard_.persistent || false,
+    inputFieldPlaceholder: keyboard_.placeholder,
     keyboard: rows,
-  };
+  });
 }
 
 function replyKeyboardMarkupToTlObject(replyMarkup: ReplyMarkupKeyboard): Api.replyKeyboardMarkup {
-- 
2.43.0


From 924a1b08737640ebc900549f1a735b448c43ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 074/102] fix: messages with buttons that request managed bots
 are received

---
 types/1_keyboard_button.ts | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/types/1_keyboard_button.ts b/types/1_keyboard_button.ts
index a675ea4..7bb9899 100644
--- a/types/1_keyboard_button.ts
+++ b/types/1_keyboard_button.ts
@@ -58,6 +58,14 @@ export interface KeyboardButtonRequestChat extends _KeyboardButtonBase {
   isBotMember?: boolean;
 }
 
+/** @unlisted */
+export interface KeyboardButtonRequestManagedBot extends _KeyboardButtonBase {
+  type: "requestManagedBot";
+  requestId: number;
+  suggestedName?: string;
+  suggestedUsername?: string;
+}
+
 /** @unlisted */
 export interface KeyboardButtonRequestContact extends _KeyboardButtonBase {
   type: "requestContact";
@@ -87,6 +95,7 @@ export type KeyboardButton =
   | KeyboardButtonText
   | KeyboardButtonRequestUser
   | KeyboardButtonRequestChat
+  | KeyboardButtonRequestManagedBot
   | KeyboardButtonRequestContact
   | KeyboardButtonRequestLocation
   | KeyboardButtonRequestPoll
@@ -147,6 +156,15 @@ export function constructKeyboardButton(button_: Api.KeyboardButton): KeyboardBu
         button.style = style;
       }
       return button;
+    } else if (Api.is("requestPeerTypeCreateBot", button_.peer_type)) {
+      return cleanObject({
+        type: "requestManagedBot",
+        text,
+        style,
+        requestId: button_.button_id,
+        suggestedName: button_.peer_type.suggested_name,
+        suggestedUsername: button_.peer_type.suggested_username,
+      });
     } else {
       unreachable();
     }
@@ -204,6 +222,15 @@ export function keyboardButtonToTlObject(button: KeyboardButton): Api.KeyboardBu
           style,
         };
       }
+    case "requestManagedBot":
+      return {
+        _: "keyboardButtonRequestPeer",
+        text: button.text,
+        button_id: button.requestId,
+        peer_type: { _: "requestPeerTypeCreateBot", bot_managed: true, suggested_name: button.suggestedName, suggested_username: button.suggestedUsername },
+        max_quantity: 1,
+        style,
+      };
     case "requestContact":
       return {
         _: "keyboardButtonRequestPhone",
-- 
2.43.0


From 056a98ccaedc3ccf06a224e20f26d3696f641b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 075/102] fix: buttons that request any poll are not limited to
 regular ones

---
 types/1_keyboard_button.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/1_keyboard_button.ts b/types/1_keyboard_button.ts
index 7bb9899..f8992c8 100644
--- a/types/1_keyboard_button.ts
+++ b/types/1_keyboard_button.ts
@@ -177,8 +177,8 @@ export function constructKeyboardButton(button_: Api.KeyboardButton): KeyboardBu
     if (style) {
       button.style = style;
     }
-    if (button_.quiz) {
-      button.pollType = "quiz";
+    if (button_.quiz !== undefined) {
+      button.pollType = button_.quiz ? "quiz" : "regular";
     }
     return button;
   } else if (Api.is("keyboardButtonWebView", button_) || Api.is("keyboardButtonSimpleWebView", button_)) {
@@ -247,7 +247,7 @@ export function keyboardButtonToTlObject(button: KeyboardButton): Api.KeyboardBu
       return {
         _: "keyboardButtonRequestPoll",
         text: button.text,
-        quiz: button.pollType === "quiz",
+        quiz: button.pollType === undefined ? undefined : button.pollType === "quiz",
         style,
       };
     case "miniApp":
-- 
2.43.0


From bfe7278b6004bb0fa18f450fd5434aabe23e9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 076/102] fix: the correct options of a quiz are told by their
 indexes

---
 types/8_poll.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/8_poll.ts b/types/8_poll.ts
index 6bc8cf5..ff9a0b7 100644
--- a/types/8_poll.ts
+++ b/types/8_poll.ts
@@ -19,7 +19,7 @@
  */
 
 import { equals } from "../0_deps.ts";
-import { cleanObject, decodeText } from "../1_utilities.ts";
+import { cleanObject } from "../1_utilities.ts";
 import { Api } from "../2_tl.ts";
 import type { PeerGetter } from "./1_chat_p.ts";
 import type { StickerSetNameGetter } from "./1_sticker.ts";
@@ -69,7 +69,7 @@ export async function constructPoll(media_: Api.messageMediaPoll, getStickerSetN
   const poll = media_.poll;
 
   const correctOptions = media_.results.results?.filter((v) => v.correct).map((v) => v.option);
-  const correctOptionIndexes = correctOptions !== undefined ? poll.answers.filter((v) => correctOptions.some((v_) => equals(v_, Api.as("pollAnswer", v).option))).map((v) => decodeText(Api.as("pollAnswer", v).option)).map(Number) : undefined;
+  const correctOptionIndexes = correctOptions !== undefined ? poll.answers.map((_, i) => i).filter((i) => correctOptions.some((v) => equals(v, Api.as("pollAnswer", poll.answers[i]).option))) : undefined;
   return cleanObject({
     id: String(poll.id),
     question: poll.question.text,
-- 
2.43.0


From 9f5f65cdd05848349a7acc81f999c23243ea3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 077/102] fix: messages that reply to nothing but their topic
 are told to be in it

---
 types/9_message.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/types/9_message.ts b/types/9_message.ts
index 575ec22..f8fe5b4 100644
--- a/types/9_message.ts
+++ b/types/9_message.ts
@@ -761,6 +761,11 @@ function getSender(message_: Api.message | Api.messageService | Api.ephemeralMes
   }
 }
 
+function getThreadId(replyHeader: Api.messageReplyHeader) {
+  // the topic itself is the message that is replied to by those that reply to no other message of it
+  return replyHeader.reply_to_top_id ?? (replyHeader.forum_topic ? replyHeader.reply_to_msg_id : undefined);
+}
+
 async function getReply(message_: Api.message | Api.messageService | Api.ephemeralMessage, chat: ChatP, getMessage: Message_MessageGetter) {
   let threadId: number | undefined;
   let isTopicMessage = false;
@@ -771,7 +776,7 @@ async function getReply(message_: Api.message | Api.messageService | Api.ephemer
       isTopicMessage = true;
     }
 
-    threadId = message_.reply_to.reply_to_top_id;
+    threadId = getThreadId(message_.reply_to);
 
     // scheduled and ephemeral messages are numbered separately
     const isNumberedSeparately = message_.reply_to.reply_to_scheduled || message_.reply_to.reply_to_ephemeral;
@@ -803,7 +808,7 @@ async function constructServiceMessage(message_: Api.messageService, chat: ChatP
   };
 
   if (Api.is("messageReplyHeader", message_.reply_to) && message_.reply_to.reply_to_msg_id) {
-    message.threadId = message_.reply_to.reply_to_top_id;
+    message.threadId = getThreadId(message_.reply_to);
     message.replyToMessageId = message_.reply_to.reply_to_msg_id;
   }
   if (business) {
@@ -1036,7 +1041,7 @@ export async function constructMessage(
     if (message_.reply_to.quote) {
       message.replyQuote = constructReplyQuote(message_.reply_to.quote_text, message_.reply_to.quote_offset, message_.reply_to.quote_entities);
     }
-    message.threadId = message_.reply_to.reply_to_top_id;
+    message.threadId = getThreadId(message_.reply_to);
     message.replyToMessageId = message_.reply_to.reply_to_msg_id;
   }
   if (business) {
-- 
2.43.0


From 4eb1d9b0f519e2cca9f833edb8ea11d977ef8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 078/102] fix: renew temporary auth keys before they expire

---
 client/2_client_encrypted.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 6eb54e6..e2876b0 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -18,7 +18,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { concat, delay, ige256Encrypt, SECOND } from "../0_deps.ts";
+import { concat, delay, ige256Encrypt, MINUTE, SECOND } from "../0_deps.ts";
 import { drop, fromUnixTimestamp, getLogger, getRandomId, intFromBytes, type Logger, type MaybePromise, mod, sha1, toUnixTimestamp } from "../1_utilities.ts";
 import { Api, type message, Mtproto, TLWriter, writeMessage, X } from "../2_tl.ts";
 import type { DC } from "../3_transport.ts";
@@ -196,7 +196,8 @@ export class ClientEncrypted extends ClientAbstract {
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     signal.throwIfAborted();
-    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 5 * SECOND) {
+    // must not expire before the next check
+    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 2 * MINUTE) {
       return;
     }
     this.#L.debug("reconnecting with a new temporary auth key");
-- 
2.43.0


From 4a2696c2e92ac4fbf7d4c2da876276b3d7034bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 079/102] fix: do not invoke functions under a temporary auth
 key that is not bound yet

---
 client/2_client_encrypted.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index e2876b0..2be2e56 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -241,6 +241,9 @@ export class ClientEncrypted extends ClientAbstract {
   #plainClients = new Set<ClientPlain>();
   override disconnect() {
     ++this.#disconnectCount;
+    if (this.#isPerfectForwardSecrecyEnabled) {
+      this.#isAuthKeyBound = false;
+    }
     super.disconnect();
     this.#connectPromise = undefined;
     this.#createAuthKeyPromise = undefined;
@@ -392,6 +395,10 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
+    if (this.#isPerfectForwardSecrecyEnabled && !this.#isAuthKeyBound && this.#connectPromise && function_._ !== "auth.bindTempAuthKey") {
+      // nothing else can be invoked until the temporary auth key is bound
+      await this.#connectPromise;
+    }
     const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
     // might get rejected while it is still being sent
     drop(sentRequest.promiseWithResolvers.promise);
-- 
2.43.0


From 01d1165d03a9b6d3c5018b161058cc73a29f369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 080/102] fix: do not keep a session open whose temporary auth
 key could not be bound

---
 client/2_client_encrypted.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 2be2e56..d1d5994 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -158,8 +158,17 @@ export class ClientEncrypted extends ClientAbstract {
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#isAuthKeyBound = false;
-      await this.#bindTemporaryAuthKey();
+      try {
+        await this.#bindTemporaryAuthKey();
+        this.#assertNotDisconnectedSince(disconnectCount);
+        this.#isAuthKeyBound = true;
+      } catch (err) {
+        if (disconnectCount === this.#disconnectCount) {
+          // the session must not stay open with an auth key that is not bound
+          super.disconnect();
+        }
+        throw err;
+      }
       this.#refreshTemporaryAuthKey();
     } else {
       this.#isAuthKeyBound = true;
@@ -190,7 +199,7 @@ export class ClientEncrypted extends ClientAbstract {
       nonce,
       encrypted_message,
       expires_at,
-    }), this.#isAuthKeyBound = true;
+    });
   }
 
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
-- 
2.43.0


From 6d9bf4da0cff5ea9cd3d6bfae77adc37b38b9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 081/102] fix: keep the temporary auth key of an open session
 when connecting again

---
 client/2_client_encrypted.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index d1d5994..6750f72 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -147,6 +147,11 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async #connect() {
+    if (this.#isPerfectForwardSecrecyEnabled && this.#isAuthKeyBound && !this.isDisconnected) {
+      // the current temporary auth key can still be used
+      await super.connect();
+      return;
+    }
     const disconnectCount = this.#disconnectCount;
     if (!this.authKey.byteLength) {
       await this.#createAuthKey();
-- 
2.43.0


From 1556e4da927913ab958bac9ec4faf425054fadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 082/102] fix: report that a connection that was not read from
 was closed

---
 session/1_session.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/1_session.ts b/session/1_session.ts
index a9cdb0f..70a75d8 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -202,7 +202,12 @@ export abstract class Session {
   disconnect() {
     ++this.#disconnectCount;
     this.#isDisconnected = true;
+    const wasConnected = this.isConnected;
     this.closeConnection();
+    if (wasConnected) {
+      // it might not have been read from, and reported to be closed, yet
+      this.transport.connection.stateChangeHandler?.(false);
+    }
     this.#resolveConnectionStateChange();
   }
 
-- 
2.43.0


From ec9b11b7386dc4c3cfed04677f702834a9664a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 083/102] fix: leave translations that were returned earlier as
 they are

---
 client/2_translations_manager.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/2_translations_manager.ts b/client/2_translations_manager.ts
index dc43c35..c70d087 100644
--- a/client/2_translations_manager.ts
+++ b/client/2_translations_manager.ts
@@ -127,14 +127,15 @@ export class TranslationsManager implements UpdateProcessor<TranslationsManagerU
   }
 
   #applyLangPackDifference(translations: Translation[], strings: Api.LangPackString[]) {
+    translations = [...translations];
     for (const string of strings) {
       if (Api.is("langPackStringDeleted", string)) {
         translations = translations.filter((v) => v.key !== string.key);
       } else {
         const newTranslation = constructTranslation(string);
-        const currentTranslation = translations.find((v) => v.key === string.key);
-        if (currentTranslation) {
-          Object.assign(currentTranslation, newTranslation);
+        const index = translations.findIndex((v) => v.key === string.key);
+        if (index !== -1) {
+          translations[index] = newTranslation;
         } else {
           translations.push(newTranslation);
         }
-- 
2.43.0


From 219f1b374a279fd4088321751d44c5116019adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 084/102] fix: do not store the password a callback query is
 confirmed with

---
 client/4_callback_query_manager.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/4_callback_query_manager.ts b/client/4_callback_query_manager.ts
index 8c324fe..69e1d7c 100644
--- a/client/4_callback_query_manager.ts
+++ b/client/4_callback_query_manager.ts
@@ -58,12 +58,14 @@ export class CallbackQueryManager implements UpdateProcessor<CallbackQueryManage
     checkMessageId(messageId);
     validateCallbackQueryQuestion(question);
     const peer = await this.#c.getInputPeer(botId), peerId = await this.#c.getInputPeerChatId(peer), questionKey = JSON.stringify(question);
-    const maybeAnswer = await this.#c.messageStorage.getCallbackQueryAnswer(peerId, messageId, questionKey);
+    // confirmations are not remembered, and neither are the passwords in them
+    const canCache = question.type !== "password";
+    const maybeAnswer = canCache ? await this.#c.messageStorage.getCallbackQueryAnswer(peerId, messageId, questionKey) : null;
     if (maybeAnswer !== null && !CallbackQueryManager.#isExpired(maybeAnswer[1], maybeAnswer[0].cache_time)) {
       return constructCallbackQueryAnswer(maybeAnswer[0]);
     }
     const answer = await this.#c.invoke({ _: "messages.getBotCallbackAnswer", peer, msg_id: messageId, data: "data" in question ? encodeText(question.data) : undefined, game: question.type === "game" || undefined, password: question.type === "password" ? await this.#getPasswordCheck(question.password) : undefined });
-    if (answer.cache_time >= 0) {
+    if (canCache && answer.cache_time >= 0) {
       await this.#c.messageStorage.setCallbackQueryAnswer(peerId, messageId, questionKey, answer);
     }
     return constructCallbackQueryAnswer(answer);
-- 
2.43.0


From f84cc76200203318fefdec0495ebb38054ec61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 085/102] fix: tell custom emoji apart by their documents

---
 client/2_file_manager.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 375d65e..6d2bb10 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -736,7 +736,7 @@ export class FileManager {
     }
     stickers = [];
     const documents_ = (await this.#c.invoke({ _: "messages.getCustomEmojiDocuments", document_id: id.map(BigInt) })).map((v) => Api.as("document", v));
-    for (const [i, document_] of documents_.entries()) {
+    for (const document_ of documents_) {
       await this.#c.messageStorage.setCustomEmojiDocument(document_.id, document_);
       const fileId_: FileId = {
         type: FileType.Document,
@@ -746,7 +746,7 @@ export class FileManager {
       };
       const fileUniqueId = toUniqueFileId(fileId_);
       const fileId = serializeFileId(fileId_);
-      const sticker = await constructSticker(document_, fileId, fileUniqueId, this.getStickerSetName.bind(this), id[i]);
+      const sticker = await constructSticker(document_, fileId, fileUniqueId, this.getStickerSetName.bind(this), String(document_.id));
       stickers.push(sticker);
     }
     return stickers;
-- 
2.43.0


From c588fd0c6d95dbb6b1daf1abba076600023669b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 086/102] fix: remember changes of video chats that come
 without a chat, and which one ended

---
 client/3_video_chat_manager.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/client/3_video_chat_manager.ts b/client/3_video_chat_manager.ts
index d842873..80c6c8e 100644
--- a/client/3_video_chat_manager.ts
+++ b/client/3_video_chat_manager.ts
@@ -144,6 +144,13 @@ export class VideoChatManager implements UpdateProcessor<VideoChatManagerUpdate,
   }
 
   async handleUpdate(update: VideoChatManagerUpdate): Promise<Update | null> {
+    if (Api.is("groupCallDiscarded", update.call)) {
+      await this.#c.messageStorage.setGroupCall(update.call.id, null);
+      await this.#c.messageStorage.setGroupCallAccessHash(update.call.id, null);
+    } else {
+      await this.#c.messageStorage.setGroupCall(update.call.id, update.call);
+      await this.#c.messageStorage.setGroupCallAccessHash(update.call.id, update.call.access_hash);
+    }
     if (!update.peer) {
       return null; // TODO: handle updates with unspecified chat_id
     }
@@ -151,15 +158,11 @@ export class VideoChatManager implements UpdateProcessor<VideoChatManagerUpdate,
     const fullChat = await this.#c.messageStorage.getFullChat(chatId).then((v) => v === null ? this.#c.messageStorage.getFullChat(chatId) : v) as Api.channelFull | Api.chatFull | null;
     let updateFullChat = false;
     if (Api.is("groupCallDiscarded", update.call)) {
-      await this.#c.messageStorage.setGroupCall(update.call.id, null);
-      await this.#c.messageStorage.setGroupCallAccessHash(update.call.id, null);
-      if (fullChat !== null) {
+      if (fullChat !== null && Api.is("inputGroupCall", fullChat.call) && fullChat.call.id === update.call.id) {
         fullChat.call = undefined;
         updateFullChat = true;
       }
     } else {
-      await this.#c.messageStorage.setGroupCall(update.call.id, update.call);
-      await this.#c.messageStorage.setGroupCallAccessHash(update.call.id, update.call.access_hash);
       if (fullChat !== null) {
         if (!("call" in fullChat) || !fullChat.call || !Api.is("inputGroupCall", fullChat.call) || fullChat.call.id !== update.call.id) {
           fullChat.call = { ...update.call, _: "inputGroupCall" };
-- 
2.43.0


From 7e4e6c72941f6292dc9538fd68ed87a41772cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 087/102] fix: keep remembered chats right when members change
 and after a restart

---
 client/2_business_connection_manager.ts |  2 ++
 client/4_chat_list_manager.ts           | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/client/2_business_connection_manager.ts b/client/2_business_connection_manager.ts
index 292f29b..439003b 100644
--- a/client/2_business_connection_manager.ts
+++ b/client/2_business_connection_manager.ts
@@ -45,6 +45,8 @@ export class BusinessConnectionManager implements UpdateProcessor<BusinessConnec
       await this.#c.messageStorage.setBusinessConnection(id, connection_);
       return constructBusinessConnection(connection_, this.#c.getPeer);
     } else {
+      // might not be in the memory yet
+      await this.#c.messageStorage.peers.get([Api.peerToChatId({ ...connection_, _: "peerUser" })]);
       return constructBusinessConnection(connection_, this.#c.getPeer);
     }
   }
diff --git a/client/4_chat_list_manager.ts b/client/4_chat_list_manager.ts
index a766fa9..aa2501d 100644
--- a/client/4_chat_list_manager.ts
+++ b/client/4_chat_list_manager.ts
@@ -24,7 +24,7 @@ import { Api } from "../2_tl.ts";
 import { type Chat, type ChatListItem, type ChatMember, type ChatP, type ChatPChannel, type ChatPGroup, type ChatPSupergroup, type ChatSettings, constructChat, constructChatListItem, constructChatMember, constructChatP, constructChatSettings, type ID } from "../3_types.ts";
 import type { CreateChannelParams, CreateGroupParams, CreateSupergroupParams, GetChatMembersParams, GetCommonChatsParams } from "./0_params.ts";
 import type { UpdateProcessor } from "./0_update_processor.ts";
-import { canBeInputChannel, canBeInputUser, getChatListId, getLimit, toInputChannel, toInputUser } from "./0_utilities.ts";
+import { canBeInputChannel, canBeInputUser, getChatListId, getLimit, getMentionedChatIds, toInputChannel, toInputUser } from "./0_utilities.ts";
 import type { C as C_ } from "./1_types.ts";
 import type { FileManager } from "./2_file_manager.ts";
 import type { MessageManager } from "./3_message_manager.ts";
@@ -34,6 +34,10 @@ type C = C_ & { fileManager: FileManager; messageManager: MessageManager };
 const chatListManagerUpdates = [
   "updateChannel",
   "updateChat",
+  "updateChatParticipants",
+  "updateChatParticipantAdd",
+  "updateChatParticipantDelete",
+  "updateChatParticipantAdmin",
   "updateUser",
   "updateUserName",
 ] as const;
@@ -59,6 +63,12 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
     await this.#c.messageStorage.setFullChat(chatId, null);
   }
 
+  async #handleUpdateChatParticipants(update: Api.updateChatParticipants | Api.updateChatParticipantAdd | Api.updateChatParticipantDelete | Api.updateChatParticipantAdmin) {
+    const chat_id = Api.is("updateChatParticipants", update) ? update.participants.chat_id : update.chat_id;
+    const chatId = Api.peerToChatId({ _: "peerChat", chat_id });
+    await this.#c.messageStorage.setFullChat(chatId, null);
+  }
+
   async #handleUpdateUser(update: Api.updateUser | Api.updateUserName) {
     const peer: Api.peerUser = { ...update, _: "peerUser" };
     const chatId = Api.peerToChatId(peer);
@@ -106,6 +116,8 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
       await this.#handleUpdateChat(update);
     } else if (Api.is("updateUser", update) || Api.is("updateUserName", update)) {
       await this.#handleUpdateUser(update);
+    } else if (Api.isOneOf(["updateChatParticipants", "updateChatParticipantAdd", "updateChatParticipantDelete", "updateChatParticipantAdmin"], update)) {
+      await this.#handleUpdateChatParticipants(update);
     } else {
       unreachable();
     }
@@ -117,6 +129,10 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
     const chatId_ = await this.#c.getInputPeerChatId(inputPeer);
     let fullChat = await this.#c.messageStorage.getFullChat(chatId_);
     if (fullChat !== null) {
+      // the chats mentioned might not be in the memory yet
+      for (const chatId of [chatId_, ...getMentionedChatIds(fullChat)]) {
+        await this.#c.messageStorage.peers.get([chatId]);
+      }
       return fullChat;
     }
     if (canBeInputUser(inputPeer)) {
-- 
2.43.0


From 52a0c01efad6532386e582c114dfc73f3fb2caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 088/102] fix: take polls from the messages that arrive, and
 keep what was chosen

---
 client/0_storage_operations.ts | 30 ++++++++++++++++++++++++++++--
 client/2_update_manager.ts     |  1 +
 client/3_message_manager.ts    |  1 +
 client/4_poll_manager.ts       |  4 ++--
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 9dd91ce..4e1bc3a 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -19,7 +19,7 @@
  */
 
 import { MINUTE } from "../0_deps.ts";
-import { LruCache, unreachable } from "../0_deps.ts";
+import { equals, LruCache, unreachable } from "../0_deps.ts";
 import { base64DecodeUrlSafe, base64EncodeUrlSafe, getLogger, intFromBytes, type Logger, type MaybePromise, rleDecode, rleEncode, sha1, ZERO_CHANNEL_ID } from "../1_utilities.ts";
 import { awaitablePooledMap, Mutex } from "../1_utilities.ts";
 import { fromString, type Storage, type StorageKeyPart, toString } from "../2_storage.ts";
@@ -668,8 +668,34 @@ export class StorageOperations {
     }
   }
 
-  async setPollResults(pollId: bigint, pollResults: Api.pollResults) {
+  async setPollResults(pollId: bigint, pollResults: Api.pollResults): Promise<Api.pollResults> {
+    if (pollResults.min) {
+      // what is the same for everyone does not include what the current user has chosen
+      const previous = await this.getPollResults(pollId);
+      if (previous !== null) {
+        pollResults = {
+          ...pollResults,
+          min: previous.min,
+          results: pollResults.results?.map((v) => {
+            const previousResult = previous.results?.find((v_) => equals(v_.option, v.option));
+            return { ...v, chosen: previousResult?.chosen, correct: v.correct ?? previousResult?.correct };
+          }),
+          solution: pollResults.solution ?? previous.solution,
+          solution_entities: pollResults.solution_entities ?? previous.solution_entities,
+          solution_media: pollResults.solution_media ?? previous.solution_media,
+        };
+      }
+    }
     await this.setTlObject(K.cache.pollResult(pollId), pollResults);
+    return pollResults;
+  }
+
+  /** Sets the poll of a message that was just received. */
+  async setMessagePoll(message: Api.Message) {
+    if (Api.is("message", message) && Api.is("messageMediaPoll", message.media)) {
+      await this.setPoll(message.media.poll.id, message.media.poll);
+      await this.setPollResults(message.media.poll.id, message.media.results);
+    }
   }
 
   async getPollResults(pollId: bigint): Promise<Api.pollResults | null> {
diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index ef8cd8c..66d5b3d 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -307,6 +307,7 @@ export class UpdateManager {
         for (const message of result.messages) {
           if (Api.is("message", message) || Api.is("messageService", message)) {
             await this.#c.messageStorage.setMessage(Api.peerToChatId(message.peer_id), message.id, message);
+            await this.#c.messageStorage.setMessagePoll(message);
           }
         }
       }
diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index fca6226..60fc095 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -2218,6 +2218,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       if (Api.is("message", update.message) || Api.is("messageService", update.message)) {
         const chatId = Api.peerToChatId(update.message.peer_id);
         await this.#c.messageStorage.setMessage(chatId, update.message.id, update.message);
+        await this.#c.messageStorage.setMessagePoll(update.message);
       }
     }
 
diff --git a/client/4_poll_manager.ts b/client/4_poll_manager.ts
index 2ac1bb3..ebcb3db 100644
--- a/client/4_poll_manager.ts
+++ b/client/4_poll_manager.ts
@@ -128,7 +128,7 @@ export class PollManager implements UpdateProcessor<PollManagerUpdate, true> {
 
   async handleUpdate(update: PollManagerUpdate): Promise<Update | null> {
     if (Api.is("updateMessagePoll", update)) {
-      await this.#c.messageStorage.setPollResults(update.poll_id, update.results);
+      const results = await this.#c.messageStorage.setPollResults(update.poll_id, update.results);
       let poll: Api.poll | null = null;
       if (update.poll) {
         poll = update.poll;
@@ -137,7 +137,7 @@ export class PollManager implements UpdateProcessor<PollManagerUpdate, true> {
         poll = await this.#c.messageStorage.getPoll(update.poll_id);
       }
       if (poll) {
-        const messageMediaPoll: Api.messageMediaPoll = { _: "messageMediaPoll", poll, results: update.results };
+        const messageMediaPoll: Api.messageMediaPoll = { _: "messageMediaPoll", poll, results };
         return { type: "poll", poll: await constructPoll(messageMediaPoll, this.#c.fileManager.getStickerSetName.bind(this.#c.fileManager), this.#c.getPeer) };
       } else {
         return null;
-- 
2.43.0


From c6a25ef91057ee45331aabf79959a097df2eb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 089/102] fix: include replies, keyboards and effects in
 messages built from updateShortSentMessage

---
 client/2_update_manager.ts | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 66d5b3d..b100d05 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -651,7 +651,11 @@ export class UpdateManager {
           message: call.message,
           media: updates_.media,
           date: updates_.date,
-          // reply_to: call.reply_to, // TODO?
+          noforwards: call.noforwards,
+          invert_media: call.invert_media,
+          effect: call.effect,
+          reply_to: await this.#inputReplyToToReplyHeader(call.reply_to),
+          reply_markup: UpdateManager.#inputReplyMarkupToReplyMarkup(call.reply_markup),
           entities: updates_.entities,
           ttl_period: updates_.ttl_period,
         },
@@ -713,6 +717,36 @@ export class UpdateManager {
     }
   }
 
+  async #inputReplyToToReplyHeader(replyTo: Api.InputReplyTo | undefined): Promise<Api.MessageReplyHeader | undefined> {
+    if (Api.is("inputReplyToMessage", replyTo)) {
+      return {
+        _: "messageReplyHeader",
+        reply_to_msg_id: replyTo.reply_to_msg_id,
+        reply_to_peer_id: replyTo.reply_to_peer_id && await this.#c.inputPeerToPeer(replyTo.reply_to_peer_id),
+        reply_to_top_id: replyTo.top_msg_id,
+        quote: replyTo.quote_text === undefined ? undefined : true,
+        quote_text: replyTo.quote_text,
+        quote_entities: replyTo.quote_text === undefined ? undefined : replyTo.quote_entities,
+        quote_offset: replyTo.quote_offset,
+        todo_item_id: replyTo.todo_item_id,
+        poll_option: replyTo.poll_option,
+      };
+    } else if (Api.is("inputReplyToStory", replyTo)) {
+      return { _: "messageReplyStoryHeader", peer: await this.#c.inputPeerToPeer(replyTo.peer), story_id: replyTo.story_id };
+    }
+  }
+
+  static #inputReplyMarkupToReplyMarkup(replyMarkup: Api.ReplyMarkup | undefined): Api.ReplyMarkup | undefined {
+    if (!Api.is("replyInlineMarkup", replyMarkup)) {
+      return replyMarkup;
+    }
+    const rows = replyMarkup.rows.map((row) => ({
+      ...row,
+      buttons: row.buttons.map((button) => Api.is("inputKeyboardButtonUrlAuth", button) ? { _: "keyboardButtonUrlAuth" as const, style: button.style, text: button.text, fwd_text: button.fwd_text, url: button.url, button_id: 0 } : button),
+    }));
+    return { ...replyMarkup, rows };
+  }
+
   async #setUpdateStateDate(date: number) {
     const unlock = await this.#recoverUpdateGapMutex.lock();
     try {
-- 
2.43.0


From 8f3e6644b7e6a5bb4f04a38ac04b310fc2b8aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 090/102] fix: let switchInlineQueryChosenChats name private
 chats with users

---
 types/1_inline_keyboard_button.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/1_inline_keyboard_button.ts b/types/1_inline_keyboard_button.ts
index 2490637..c7e7295 100644
--- a/types/1_inline_keyboard_button.ts
+++ b/types/1_inline_keyboard_button.ts
@@ -160,7 +160,7 @@ export function constructInlineKeyboardButton(button_: Api.KeyboardButton): Inli
     if (button_.same_peer) {
       return cleanObject({ type: "switchInlineQueryCurrentChat", text, style, inlineQuery: button_.query });
     } else if (button_.peer_types && button_.peer_types.length) {
-      const isUser = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeBotPM") || undefined;
+      const isUser = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypePM") || undefined;
       const isBot = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeSameBotPM" || v._ === "inlineQueryPeerTypeBotPM") || undefined;
       const isGroup = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeChat" || v._ === "inlineQueryPeerTypeMegagroup") || undefined;
       const isChannel = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeBroadcast") || undefined;
@@ -225,7 +225,7 @@ export async function inlineKeyboardButtonToTlObject(button: InlineKeyboardButto
         throw new InputError("switchInlineQueryChosenChats: At least one chat type must be allowed.");
       }
       if (isUser) {
-        peerTypes.push({ _: "inlineQueryPeerTypeBotPM" });
+        peerTypes.push({ _: "inlineQueryPeerTypePM" });
       }
       if (isBot) {
         peerTypes.push({ _: "inlineQueryPeerTypeSameBotPM" }, { _: "inlineQueryPeerTypeBotPM" });
-- 
2.43.0


From f411b545debcbb80716505e456b6992d370413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 091/102] fix: keep media attributes of poll media and send
 explanations without formatting

---
 client/3_message_manager.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index 60fc095..be1cfe1 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -1241,7 +1241,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     const parseResult = explanation !== undefined ? this.parseText(explanation, { parseMode: params?.explanationParseMode, entities: params?.explanationEntities }) : undefined;
 
     const solution = parseResult?.[0];
-    const solutionEntities = parseResult?.[1];
+    const solutionEntities = parseResult ? parseResult[1] ?? [] : undefined;
     const mediaMap = new Map<number, Api.InputMedia>();
 
     for (const [i, option] of options.entries()) {
@@ -1322,9 +1322,9 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
       case "photo":
         return await this.#getInputMediaPhoto(peer, media.photo, media);
       case "video":
-        return this.#getInputMediaDocument(await this.#uploadVideo(peer, media.video, media));
+        return { ...this.#getInputMediaDocument(await this.#uploadVideo(peer, media.video, media)), spoiler: media.isSpoiler || undefined };
       case "animation":
-        return this.#getInputMediaDocument(await this.#uploadAnimation(peer, media.animation, media));
+        return { ...this.#getInputMediaDocument(await this.#uploadAnimation(peer, media.animation, media)), spoiler: media.isSpoiler || undefined };
       case "sticker":
         return this.#getInputMediaDocument(await this.#uploadSticker(peer, media.sticker, media));
 
@@ -1803,6 +1803,8 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     return {
       _: "inputMediaPhoto",
       id: { _: "inputPhoto", id: photo_.id, access_hash: photo_.access_hash, file_reference: photo_.file_reference },
+      spoiler: result.spoiler,
+      ttl_seconds: result.ttl_seconds,
       live_photo: !!messageMediaPhoto.video || undefined,
       video: Api.is("document", messageMediaPhoto.video) ? { _: "inputDocument", id: messageMediaPhoto.video.id, access_hash: messageMediaPhoto.video.access_hash, file_reference: messageMediaPhoto.video.file_reference } : undefined,
     };
-- 
2.43.0


From acc5c83f469e020689a28479f7e4ad7af5611e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 092/102] fix: give MP4 files the type video/mp4

---
 0_deps.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/0_deps.ts b/0_deps.ts
index 2eca7fc..c1932e1 100644
--- a/0_deps.ts
+++ b/0_deps.ts
@@ -55,6 +55,8 @@ import { contentType as contentType_ } from "jsr:@std/media-types@1.1.0/content-
 export const contentType: typeof contentType_ = (extensionOrType) => {
   if (extensionOrType === "tgs") {
     return "application/x-tgsticker";
+  } else if (extensionOrType === "mp4") {
+    return "video/mp4";
   } else {
     return contentType_(extensionOrType);
   }
-- 
2.43.0


From 514cdb359113be25c0e9b1fb52e8523b1530c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 093/102] fix: let gifts be sold and crafted on behalf of
 businesses

---
 client/6_client.ts            | 10 +++++-----
 client/6_client_dispatcher.ts | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index f29702b..ad8ced9 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -28,7 +28,7 @@ import { type AlbumStoryList, type Animation, type AppSupport, type Audio, type
 import { APP_VERSION, DEVICE_MODEL, DOWNLOAD_MAX_CHUNK_SIZE, INITIAL_DC, LANG_CODE, LANG_PACK, MAX_CHANNEL_ID, MAX_CHAT_ID, PHONE_NUMBER_TTL, type PublicKeys, SYSTEM_LANG_CODE, SYSTEM_VERSION, USERNAME_TTL } from "../4_constants.ts";
 import { AuthKeyUnregistered, FloodWait, Migrate, SessionRevoked } from "../4_errors.ts";
 import { AbortableLoop } from "./0_abortable_loop.ts";
-import type { AddBotToAttachmentsMenuParams, AddChatMemberParams, AddChatToCommunityParams, AddContactParams, AddMusicToProfileParams, AddReactionParams, AddSavedNotificationSoundParams, AddStickerToStickerSetParams, AllowUnpaidMessagesFromUserParams, AnswerCallbackQueryParams, AnswerInlineQueryParams, AnswerPreCheckoutQueryParams, ApproveJoinRequestsParams, BanChatMemberParams, BoostChatParams, CheckUsernameParams, CreateChannelParams, CreateCommunityParams, CreateGroupParams, CreateInviteLinkParams, CreateStickerSetParams, CreateStoryParams, CreateSupergroupParams, CreateTopicParams, DeclineJoinRequestsParams, DeleteAccountParams, DeleteMessageParams, DeleteMessagesParams, DeleteMyCommandsParams, DisallowUnpaidMessagesFromUserParams, DownloadLiveStreamSegmentParams, DownloadParams, EditInlineMessageCaptionParams, EditInlineMessageMediaParams, EditInlineMessageRichTextParams, EditInlineMessageTextParams, EditMessageCaptionParams, EditMessageLiveLocationParams, EditMessageMediaParams, EditMessageReplyMarkupParams, EditMessageRichTextParams, EditMessageTextParams, EditStoryParams, EditTopicParams, EnableSignaturesParams, EndSecretChatParams, EndTakeoutSessionParams, ForwardMessagesParams, GetAdministeredChatsParams, GetBlockedUsersParams, GetChatMembersParams, GetChatsParams, GetClaimedGiftsParams, GetCommonChatsParams, GetCreatedInviteLinksParams, GetHistoryParams, GetJoinRequestsParams, GetLeftChannelsParams, GetLinkPreviewParams, GetMessageReactionsParams, GetMyCommandsParams, GetMyDescriptionParams, GetMyNameParams, GetMyShortDescriptionParams, GetPollVotersParams, GetProfileMusicParams, GetProfilePhotosParams, GetRecentActionsParams, GetSavedChatsParams, GetSavedMessagesParams, GetStarTransactionsParams, GetStoriesInAlbumParams, GetTonTransactionsParams, GetTopicsParams, GetTranslationsParams, GiftPremiumSubscriptionParams, InvokeParams, JoinVideoChatParams, MarkAllMentionsAsReadParams, OpenChatParams, OpenMiniAppParams, PinMessageParams, PromoteChatMemberParams, RemoveProfilePhotoParams, ReplaceStickerInStickerSetParams, ReportChatParams, ReportEphemeralMessageParams, ReportStoryParams, ResolveUsernameParams, SaveDraftParams, SaveRichTextDraftParams, ScheduleVideoChatParams, SearchMessagesParams, SendAnimationParams, SendAudioParams, SendChatActionParams, SendChecklistParams, SendContactParams, SendDiceParams, SendDocumentParams, SendGiftParams, SendInlineQueryParams, SendInvoiceParams, SendLivePhotoParams, SendLocationParams, SendMediaGroupParams, SendMessageDraftParams, SendMessageParams, SendPhotoParams, SendPollParams, SendRichTextDraftParams, SendRichTextParams, SendSecretAnimationParams, SendSecretAudioParams, SendSecretContactParams, SendSecretDocumentParams, SendSecretLocationParams, SendSecretMessageParams, SendSecretPhotoParams, SendSecretStickerParams, SendSecretVenueParams, SendSecretVideoNoteParams, SendSecretVideoParams, SendSecretVoiceParams, SendStickerParams, SendVenueParams, SendVideoNoteParams, SendVideoParams, SendVoiceParams, SetBirthdayParams, SetBusinessAwayMessageParams, SetBusinessIntroParams, SetChatMemberRightsParams, SetChatMemberTagParams, SetChatPhotoParams, SetContactNoteParams, SetEmojiStatusParams, SetLocationParams, SetManagedBotAccessSettingsParams, SetMyCommandsParams, SetMyDescriptionParams, SetMyNameParams, SetMyShortDescriptionParams, SetNameColorParams, SetNotificationSettingsParams, SetPersonalChannelParams, SetProfileColorParams, SetReactionsParams, SetStickerSetThumbnailParams, SetWorkingHoursParams, SignInParams, SignUpParams, StartBotParams, StartTakeoutSessionParams, StartVideoChatParams, StopPollParams, SummarizeTextParams, TransferGiftParams, TranslateTextParams, UnpinMessageParams, UnpinMessagesParams, UpdateChecklistParams, UpdateProfileParams, UpdateProfilePhotoParams, UpdateProfileVideoParams } from "./0_params.ts";
+import type { AddBotToAttachmentsMenuParams, AddChatMemberParams, AddChatToCommunityParams, AddContactParams, AddMusicToProfileParams, AddReactionParams, AddSavedNotificationSoundParams, AddStickerToStickerSetParams, AllowUnpaidMessagesFromUserParams, AnswerCallbackQueryParams, AnswerInlineQueryParams, AnswerPreCheckoutQueryParams, ApproveJoinRequestsParams, BanChatMemberParams, BoostChatParams, CheckUsernameParams, CraftGiftsParams, CreateChannelParams, CreateCommunityParams, CreateGroupParams, CreateInviteLinkParams, CreateStickerSetParams, CreateStoryParams, CreateSupergroupParams, CreateTopicParams, DeclineJoinRequestsParams, DeleteAccountParams, DeleteMessageParams, DeleteMessagesParams, DeleteMyCommandsParams, DisallowUnpaidMessagesFromUserParams, DownloadLiveStreamSegmentParams, DownloadParams, EditInlineMessageCaptionParams, EditInlineMessageMediaParams, EditInlineMessageRichTextParams, EditInlineMessageTextParams, EditMessageCaptionParams, EditMessageLiveLocationParams, EditMessageMediaParams, EditMessageReplyMarkupParams, EditMessageRichTextParams, EditMessageTextParams, EditStoryParams, EditTopicParams, EnableSignaturesParams, EndSecretChatParams, EndTakeoutSessionParams, ForwardMessagesParams, GetAdministeredChatsParams, GetBlockedUsersParams, GetChatMembersParams, GetChatsParams, GetClaimedGiftsParams, GetCommonChatsParams, GetCreatedInviteLinksParams, GetHistoryParams, GetJoinRequestsParams, GetLeftChannelsParams, GetLinkPreviewParams, GetMessageReactionsParams, GetMyCommandsParams, GetMyDescriptionParams, GetMyNameParams, GetMyShortDescriptionParams, GetPollVotersParams, GetProfileMusicParams, GetProfilePhotosParams, GetRecentActionsParams, GetSavedChatsParams, GetSavedMessagesParams, GetStarTransactionsParams, GetStoriesInAlbumParams, GetTonTransactionsParams, GetTopicsParams, GetTranslationsParams, GiftPremiumSubscriptionParams, InvokeParams, JoinVideoChatParams, MarkAllMentionsAsReadParams, OpenChatParams, OpenMiniAppParams, PinMessageParams, PromoteChatMemberParams, RemoveProfilePhotoParams, ReplaceStickerInStickerSetParams, ReportChatParams, ReportEphemeralMessageParams, ReportStoryParams, ResolveUsernameParams, SaveDraftParams, SaveRichTextDraftParams, ScheduleVideoChatParams, SearchMessagesParams, SellGiftParams, SendAnimationParams, SendAudioParams, SendChatActionParams, SendChecklistParams, SendContactParams, SendDiceParams, SendDocumentParams, SendGiftParams, SendInlineQueryParams, SendInvoiceParams, SendLivePhotoParams, SendLocationParams, SendMediaGroupParams, SendMessageDraftParams, SendMessageParams, SendPhotoParams, SendPollParams, SendRichTextDraftParams, SendRichTextParams, SendSecretAnimationParams, SendSecretAudioParams, SendSecretContactParams, SendSecretDocumentParams, SendSecretLocationParams, SendSecretMessageParams, SendSecretPhotoParams, SendSecretStickerParams, SendSecretVenueParams, SendSecretVideoNoteParams, SendSecretVideoParams, SendSecretVoiceParams, SendStickerParams, SendVenueParams, SendVideoNoteParams, SendVideoParams, SendVoiceParams, SetBirthdayParams, SetBusinessAwayMessageParams, SetBusinessIntroParams, SetChatMemberRightsParams, SetChatMemberTagParams, SetChatPhotoParams, SetContactNoteParams, SetEmojiStatusParams, SetLocationParams, SetManagedBotAccessSettingsParams, SetMyCommandsParams, SetMyDescriptionParams, SetMyNameParams, SetMyShortDescriptionParams, SetNameColorParams, SetNotificationSettingsParams, SetPersonalChannelParams, SetProfileColorParams, SetReactionsParams, SetStickerSetThumbnailParams, SetWorkingHoursParams, SignInParams, SignUpParams, StartBotParams, StartTakeoutSessionParams, StartVideoChatParams, StopPollParams, SummarizeTextParams, TransferGiftParams, TranslateTextParams, UnpinMessageParams, UnpinMessagesParams, UpdateChecklistParams, UpdateProfileParams, UpdateProfilePhotoParams, UpdateProfileVideoParams } from "./0_params.ts";
 import { StorageOperations } from "./0_storage_operations.ts";
 import { canBeInputChannel, canBeInputUser, DOWNLOAD_POOL_SIZE, getUsername, toInputChannel, toInputUser } from "./0_utilities.ts";
 import type { ClientGeneric } from "./1_client_generic.ts";
@@ -5539,8 +5539,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
    * @method gf
    * @param gifts The gifts to craft.
    */
-  async craftGifts(gifts: InputGift[]): Promise<void> {
-    await this.#giftManager.craftGifts(gifts);
+  async craftGifts(gifts: InputGift[], params?: CraftGiftsParams): Promise<void> {
+    await this.#giftManager.craftGifts(gifts, params);
   }
 
   /**
@@ -5589,8 +5589,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
    * @method gf
    * @param gift The gift to sell.
    */
-  async sellGift(gift: InputGift): Promise<void> {
-    await this.#giftManager.sellGift(gift);
+  async sellGift(gift: InputGift, params?: SellGiftParams): Promise<void> {
+    await this.#giftManager.sellGift(gift, params);
   }
 
   /**
diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 5db145d..6454a36 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -23,7 +23,7 @@ import type { Api, Mtproto } from "../2_tl.ts";
 import type { DC } from "../3_transport.ts";
 import type { AlbumStoryList, Animation, AppSupport, Audio, AuthorizationSession, AvailableReactions, Birthday, BlockedUserList, BotAccessSettings, BotCommand, BotTokenCheckResult, BusinessAwayMessageSchedule, BusinessConnection, CallbackQueryAnswer, CallbackQueryQuestion, Chat, ChatActionType, ChatJoinResult, ChatListItem, ChatMember, ChatP, ChatPChannel, ChatPGroup, ChatPPrivate, ChatPSupergroup, ChatSettings, ClaimedGifts, CodeCheckResult, Community, CommunityP, ConnectedWebsite, Country, EmojiStatus, FailedInvitation, FileSource, Gift, GiftCollection, GiftPrivacy, ID, InactiveChat, InlineQueryAnswer, InlineQueryResult, InputBusinessRecipients, InputChecklistItem, InputEmojiStatus, InputGift, InputMedia, InputPollOption, InputPrivacyRule, InputRichText, InputSticker, InputStoryContent, InviteLink, JoinRequest, LeftChannelList, LinkPreview, LiveStreamChannel, Message, MessageAnimation, MessageAudio, MessageChecklist, MessageContact, MessageCounters, MessageDice, MessageDocument, MessageInvoice, MessageList, MessageLivePhoto, MessageLocation, MessagePhoto, MessagePoll, MessageReactionList, MessageRichText, MessageSticker, MessageText, MessageVenue, MessageVideo, MessageVideoNote, MessageViewer, MessageVoice, MiniAppInfo, NetworkStatistics, NewChatPrivacy, NotificationSettings, ParseMode, PasswordCheckResult, Poll, PollVoterList, PremiumSubscriptionDuration, PriceTag, PrivacyRule, PrivacySettingKey, ProfilePhotoList, Reaction, RecentActionsEntry, ReportReason, ReportResult, ResolvedInviteLink, RichText, SavedChats, SavedNotificationSound, SecretChat, SlowModeDuration, StarAmount, StarTransactionList, Sticker, StickerSet, StickerSetP, Story, StoryAlbum, SummarizedText, TextToTranslate, Timezone, TonTransactionList, Topic, TopicList, TopicListItem, TranslatedText, Translation, Update, User, VideoChat, VideoChatActive, VideoChatScheduled, VoiceTranscription } from "../3_types.ts";
 import { DOWNLOAD_MAX_CHUNK_SIZE } from "../4_constants.ts";
-import type { AddBotToAttachmentsMenuParams, AddChatMemberParams, AddChatToCommunityParams, AddContactParams, AddMusicToProfileParams, AddReactionParams, AddSavedNotificationSoundParams, AddStickerToStickerSetParams, AllowUnpaidMessagesFromUserParams, AnswerCallbackQueryParams, AnswerInlineQueryParams, AnswerPreCheckoutQueryParams, ApproveJoinRequestsParams, BanChatMemberParams, BoostChatParams, CheckUsernameParams, CreateChannelParams, CreateCommunityParams, CreateGroupParams, CreateInviteLinkParams, CreateStickerSetParams, CreateStoryParams, CreateSupergroupParams, CreateTopicParams, DeclineJoinRequestsParams, DeleteAccountParams, DeleteMessageParams, DeleteMessagesParams, DeleteMyCommandsParams, DisallowUnpaidMessagesFromUserParams, DownloadLiveStreamSegmentParams, DownloadParams, EditInlineMessageCaptionParams, EditInlineMessageMediaParams, EditInlineMessageRichTextParams, EditInlineMessageTextParams, EditMessageCaptionParams, EditMessageLiveLocationParams, EditMessageMediaParams, EditMessageReplyMarkupParams, EditMessageRichTextParams, EditMessageTextParams, EditStoryParams, EditTopicParams, EnableSignaturesParams, EndSecretChatParams, EndTakeoutSessionParams, ForwardMessagesParams, GetAdministeredChatsParams, GetBlockedUsersParams, GetChatMembersParams, GetChatsParams, GetClaimedGiftsParams, GetCommonChatsParams, GetCreatedInviteLinksParams, GetHistoryParams, GetJoinRequestsParams, GetLeftChannelsParams, GetLinkPreviewParams, GetMessageReactionsParams, GetMyCommandsParams, GetMyDescriptionParams, GetMyNameParams, GetMyShortDescriptionParams, GetPollVotersParams, GetProfileMusicParams, GetProfilePhotosParams, GetRecentActionsParams, GetSavedChatsParams, GetSavedMessagesParams, GetStarTransactionsParams, GetStoriesInAlbumParams, GetTonTransactionsParams, GetTopicsParams, GetTranslationsParams, GiftPremiumSubscriptionParams, InvokeParams, JoinVideoChatParams, MarkAllMentionsAsReadParams, OpenChatParams, OpenMiniAppParams, PinMessageParams, PromoteChatMemberParams, RemoveProfilePhotoParams, ReplaceStickerInStickerSetParams, ReportChatParams, ReportEphemeralMessageParams, ReportStoryParams, ResolveUsernameParams, SaveDraftParams, SaveRichTextDraftParams, ScheduleVideoChatParams, SearchMessagesParams, SendAnimationParams, SendAudioParams, SendChatActionParams, SendChecklistParams, SendContactParams, SendDiceParams, SendDocumentParams, SendGiftParams, SendInlineQueryParams, SendInvoiceParams, SendLivePhotoParams, SendLocationParams, SendMediaGroupParams, SendMessageDraftParams, SendMessageParams, SendPhotoParams, SendPollParams, SendRichTextDraftParams, SendRichTextParams, SendSecretAnimationParams, SendSecretAudioParams, SendSecretContactParams, SendSecretDocumentParams, SendSecretLocationParams, SendSecretMessageParams, SendSecretPhotoParams, SendSecretStickerParams, SendSecretVenueParams, SendSecretVideoNoteParams, SendSecretVideoParams, SendSecretVoiceParams, SendStickerParams, SendVenueParams, SendVideoNoteParams, SendVideoParams, SendVoiceParams, SetBirthdayParams, SetBusinessAwayMessageParams, SetBusinessIntroParams, SetChatMemberRightsParams, SetChatMemberTagParams, SetChatPhotoParams, SetContactNoteParams, SetEmojiStatusParams, SetLocationParams, SetManagedBotAccessSettingsParams, SetMyCommandsParams, SetMyDescriptionParams, SetMyNameParams, SetMyShortDescriptionParams, SetNameColorParams, SetNotificationSettingsParams, SetPersonalChannelParams, SetProfileColorParams, SetReactionsParams, SetStickerSetThumbnailParams, SetWorkingHoursParams, SignInParams, SignUpParams, StartBotParams, StartTakeoutSessionParams, StartVideoChatParams, StopPollParams, SummarizeTextParams, TransferGiftParams, TranslateTextParams, UnpinMessageParams, UnpinMessagesParams, UpdateChecklistParams, UpdateProfileParams, UpdateProfilePhotoParams, UpdateProfileVideoParams } from "./0_params.ts";
+import type { AddBotToAttachmentsMenuParams, AddChatMemberParams, AddChatToCommunityParams, AddContactParams, AddMusicToProfileParams, AddReactionParams, AddSavedNotificationSoundParams, AddStickerToStickerSetParams, AllowUnpaidMessagesFromUserParams, AnswerCallbackQueryParams, AnswerInlineQueryParams, AnswerPreCheckoutQueryParams, ApproveJoinRequestsParams, BanChatMemberParams, BoostChatParams, CheckUsernameParams, CraftGiftsParams, CreateChannelParams, CreateCommunityParams, CreateGroupParams, CreateInviteLinkParams, CreateStickerSetParams, CreateStoryParams, CreateSupergroupParams, CreateTopicParams, DeclineJoinRequestsParams, DeleteAccountParams, DeleteMessageParams, DeleteMessagesParams, DeleteMyCommandsParams, DisallowUnpaidMessagesFromUserParams, DownloadLiveStreamSegmentParams, DownloadParams, EditInlineMessageCaptionParams, EditInlineMessageMediaParams, EditInlineMessageRichTextParams, EditInlineMessageTextParams, EditMessageCaptionParams, EditMessageLiveLocationParams, EditMessageMediaParams, EditMessageReplyMarkupParams, EditMessageRichTextParams, EditMessageTextParams, EditStoryParams, EditTopicParams, EnableSignaturesParams, EndSecretChatParams, EndTakeoutSessionParams, ForwardMessagesParams, GetAdministeredChatsParams, GetBlockedUsersParams, GetChatMembersParams, GetChatsParams, GetClaimedGiftsParams, GetCommonChatsParams, GetCreatedInviteLinksParams, GetHistoryParams, GetJoinRequestsParams, GetLeftChannelsParams, GetLinkPreviewParams, GetMessageReactionsParams, GetMyCommandsParams, GetMyDescriptionParams, GetMyNameParams, GetMyShortDescriptionParams, GetPollVotersParams, GetProfileMusicParams, GetProfilePhotosParams, GetRecentActionsParams, GetSavedChatsParams, GetSavedMessagesParams, GetStarTransactionsParams, GetStoriesInAlbumParams, GetTonTransactionsParams, GetTopicsParams, GetTranslationsParams, GiftPremiumSubscriptionParams, InvokeParams, JoinVideoChatParams, MarkAllMentionsAsReadParams, OpenChatParams, OpenMiniAppParams, PinMessageParams, PromoteChatMemberParams, RemoveProfilePhotoParams, ReplaceStickerInStickerSetParams, ReportChatParams, ReportEphemeralMessageParams, ReportStoryParams, ResolveUsernameParams, SaveDraftParams, SaveRichTextDraftParams, ScheduleVideoChatParams, SearchMessagesParams, SellGiftParams, SendAnimationParams, SendAudioParams, SendChatActionParams, SendChecklistParams, SendContactParams, SendDiceParams, SendDocumentParams, SendGiftParams, SendInlineQueryParams, SendInvoiceParams, SendLivePhotoParams, SendLocationParams, SendMediaGroupParams, SendMessageDraftParams, SendMessageParams, SendPhotoParams, SendPollParams, SendRichTextDraftParams, SendRichTextParams, SendSecretAnimationParams, SendSecretAudioParams, SendSecretContactParams, SendSecretDocumentParams, SendSecretLocationParams, SendSecretMessageParams, SendSecretPhotoParams, SendSecretStickerParams, SendSecretVenueParams, SendSecretVideoNoteParams, SendSecretVideoParams, SendSecretVoiceParams, SendStickerParams, SendVenueParams, SendVideoNoteParams, SendVideoParams, SendVoiceParams, SetBirthdayParams, SetBusinessAwayMessageParams, SetBusinessIntroParams, SetChatMemberRightsParams, SetChatMemberTagParams, SetChatPhotoParams, SetContactNoteParams, SetEmojiStatusParams, SetLocationParams, SetManagedBotAccessSettingsParams, SetMyCommandsParams, SetMyDescriptionParams, SetMyNameParams, SetMyShortDescriptionParams, SetNameColorParams, SetNotificationSettingsParams, SetPersonalChannelParams, SetProfileColorParams, SetReactionsParams, SetStickerSetThumbnailParams, SetWorkingHoursParams, SignInParams, SignUpParams, StartBotParams, StartTakeoutSessionParams, StartVideoChatParams, StopPollParams, SummarizeTextParams, TransferGiftParams, TranslateTextParams, UnpinMessageParams, UnpinMessagesParams, UpdateChecklistParams, UpdateProfileParams, UpdateProfilePhotoParams, UpdateProfileVideoParams } from "./0_params.ts";
 import { extractTransferrableObjects } from "./0_utilities.ts";
 import { deserializeWorkerError, type WorkerError } from "./0_worker_error.ts";
 import type { WorkerRequest } from "./0_worker_request.ts";
@@ -4334,8 +4334,8 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
    * @method gf
    * @param gifts The gifts to craft.
    */
-  async craftGifts(gifts: InputGift[]): Promise<void> {
-    return await this.#dispatch("craftGifts", gifts);
+  async craftGifts(gifts: InputGift[], params?: CraftGiftsParams): Promise<void> {
+    return await this.#dispatch("craftGifts", gifts, params);
   }
 
   /**
@@ -4384,8 +4384,8 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
    * @method gf
    * @param gift The gift to sell.
    */
-  async sellGift(gift: InputGift): Promise<void> {
-    return await this.#dispatch("sellGift", gift);
+  async sellGift(gift: InputGift, params?: SellGiftParams): Promise<void> {
+    return await this.#dispatch("sellGift", gift, params);
   }
 
   /**
-- 
2.43.0


From 83ada664609564743d28e63260d4e52dca759e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:02 +0000
Subject: [PATCH 094/102] fix: report ephemeral messages with the option that
 was chosen

---
 client/3_message_manager.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index be1cfe1..b1606ef 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -20,7 +20,7 @@
 
 import { contentType, startsWith, unreachable } from "../0_deps.ts";
 import { InputError } from "../0_errors.ts";
-import { base64EncodeUrlSafe, encodeText, fromUnixTimestamp, getLogger, getRandomId, type Logger } from "../1_utilities.ts";
+import { base64DecodeUrlSafe, base64EncodeUrlSafe, encodeText, fromUnixTimestamp, getLogger, getRandomId, type Logger } from "../1_utilities.ts";
 import { Api } from "../2_tl.ts";
 import { getDc } from "../3_transport.ts";
 import { type Animation, assertMessageType, type BlockedUserList, type ChatActionType, collectMediaFileSources, constructAnimation, constructBlockedUserList, constructChatAction, constructMessage as constructMessage_, constructMessageDraft, constructMessageEntity, constructMessageReactionList, constructMessageViewer, constructMiniAppInfo, constructReportResult, constructSavedChats, constructSticker, constructSummarizedText, constructVoiceTranscription, deserializeFileId, deserializeInlineMessageId, type FileId, type FileSource, FileType, type ID, type InlineQueryResult, inlineQueryResultToTlObject, type InputChecklistItem, type InputMedia, inputPageBlockToTlObject, type InputPollMedia, type InputPollMediaSticker, type InputPollMediaVideo, type InputPollOption, type InputRichText, type Message, type MessageAnimation, type MessageAudio, type MessageChecklist, type MessageContact, type MessageCounters, type MessageDice, type MessageDocument, type MessageEntity, messageEntityToTlObject, type MessageGetter, type MessageInvoice, type MessageList, type MessageLivePhoto, type MessageLocation, type MessagePhoto, type MessagePoll, type MessageReactionList, type MessageReference, type MessageRichText, messageSearchFilterToTlObject, type MessageSticker, type MessageText, type MessageVenue, type MessageVideo, type MessageVideoNote, type MessageViewer, type MessageVoice, type MiniAppInfo, type ParseMode, type Poll, type PriceTag, type Reaction, reactionEqual, reactionToTlObject, replyMarkupToTlObject, type ReportResult, type RichText, type SavedChats, type SelfDestructOption, selfDestructOptionToInt, serializeFileId, type Sticker, type SummarizedText, type TextToTranslate, toUniqueFileId, type TranslatedText, type Update, type UsernameResolver, type VoiceTranscription } from "../3_types.ts";
@@ -3240,7 +3240,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     this.#c.storage.assertUser("reportEphemeralMessage");
     const peer = await this.#c.getInputPeer(chatId);
     const id = messageId;
-    const option = params?.option ? encodeText(params.option) : new Uint8Array();
+    const option = params?.option ? base64DecodeUrlSafe(params.option) : new Uint8Array();
     const message = params?.text ?? "";
     const result = await this.#c.invoke({ _: "ephemeral.reportMessage", peer, id, option, message });
     return constructReportResult(result);
-- 
2.43.0


From 755d864ca5fde3196d67f2dedf62f7c78a5d396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 095/102] fix: give the new tag of a chat member in recent
 actions

---
 types/B_recent_action.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/B_recent_action.ts b/types/B_recent_action.ts
index 5966875..3ea7e08 100644
--- a/types/B_recent_action.ts
+++ b/types/B_recent_action.ts
@@ -668,7 +668,7 @@ export async function constructRecentAction(a: Api.ChannelAdminLogEventAction, g
         type: "editChatMemberTag",
         userId: Number(a.user_id),
         previous: a.prev_rank || undefined,
-        newTag: a.new_rank || undefined,
+        new: a.new_rank || undefined,
       });
     default:
       return {
-- 
2.43.0


From 0a50031fc493305eb2d1d0cdb6231954cf00334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 096/102] fix: do not fail on recent actions that set or remove
 a photo

---
 types/B_recent_action.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/B_recent_action.ts b/types/B_recent_action.ts
index 3ea7e08..ae3f772 100644
--- a/types/B_recent_action.ts
+++ b/types/B_recent_action.ts
@@ -57,8 +57,8 @@ export interface RecentActionChangeUsername {
 /** @unlisted */
 export interface RecentActionChangePhoto {
   type: "changePhoto";
-  previous: Photo;
-  new: Photo;
+  previous?: Photo;
+  new?: Photo;
 }
 
 /** @unlisted */
@@ -419,11 +419,11 @@ export async function constructRecentAction(a: Api.ChannelAdminLogEventAction, g
         new: a.new_value,
       };
     case "channelAdminLogEventActionChangePhoto":
-      return {
+      return cleanObject({
         type: "changePhoto",
-        previous: constructPhoto(Api.as("photo", a.prev_photo)),
-        new: constructPhoto(Api.as("photo", a.new_photo)),
-      };
+        previous: Api.is("photo", a.prev_photo) ? constructPhoto(a.prev_photo) : undefined,
+        new: Api.is("photo", a.new_photo) ? constructPhoto(a.new_photo) : undefined,
+      });
     case "channelAdminLogEventActionToggleInvites":
       return {
         type: "toggleInvites",
-- 
2.43.0


From 43fc0872aef98bd7e063e239b407ebd494205f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 097/102] fix: do not invert recent actions that show or hide
 the chat history for new members

---
 types/B_recent_action.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/B_recent_action.ts b/types/B_recent_action.ts
index ae3f772..c34a9ab 100644
--- a/types/B_recent_action.ts
+++ b/types/B_recent_action.ts
@@ -499,7 +499,7 @@ export async function constructRecentAction(a: Api.ChannelAdminLogEventAction, g
     case "channelAdminLogEventActionTogglePreHistoryHidden":
       return {
         type: "toggleChatHistoryForNewMembers",
-        isEnabled: a.new_value,
+        isEnabled: !a.new_value,
       };
     case "channelAdminLogEventActionDefaultBannedRights":
       return {
-- 
2.43.0


From 7993367165d031e430c19abadd58b20c82603520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 098/102] fix: leave out the discussion chat in recent actions
 when there was or is none

---
 types/B_recent_action.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/B_recent_action.ts b/types/B_recent_action.ts
index c34a9ab..fca26ef 100644
--- a/types/B_recent_action.ts
+++ b/types/B_recent_action.ts
@@ -151,8 +151,8 @@ export interface RecentActionStopPoll {
 /** @unlisted */
 export interface RecentActionChangeDiscussionChat {
   type: "changeDiscussionChat";
-  previous: number;
-  new: number;
+  previous?: number;
+  new?: number;
 }
 
 /** @unlisted */
@@ -513,11 +513,11 @@ export async function constructRecentAction(a: Api.ChannelAdminLogEventAction, g
         message: await constructMessage(a.message, getPeer, getMessage, getStickerSetName, getCommunity, false),
       };
     case "channelAdminLogEventActionChangeLinkedChat":
-      return {
+      return cleanObject({
         type: "changeDiscussionChat",
-        previous: peerToChatId({ _: "peerChannel", channel_id: a.prev_value }),
-        new: peerToChatId({ _: "peerChannel", channel_id: a.new_value }),
-      };
+        previous: a.prev_value ? peerToChatId({ _: "peerChannel", channel_id: a.prev_value }) : undefined,
+        new: a.new_value ? peerToChatId({ _: "peerChannel", channel_id: a.new_value }) : undefined,
+      });
     case "channelAdminLogEventActionChangeLocation":
       return cleanObject({
         type: "changeLocation",
-- 
2.43.0


From 4339f5715b42f99f066e1147d6c38398250402f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 099/102] fix: do not fail on channels as chat members

---
 types/2_chat_member.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/2_chat_member.ts b/types/2_chat_member.ts
index 72317a2..6ec3880 100644
--- a/types/2_chat_member.ts
+++ b/types/2_chat_member.ts
@@ -115,7 +115,7 @@ export type ChatMember = ChatMemberCreator | ChatMemberAdministrator | ChatMembe
 
 export function constructChatMember(member: ChatP, participant: Api.ChannelParticipant | Api.ChatParticipant | (Omit<Api.ChannelParticipant, "peer"> & { peer: ReturnType<typeof getPeer> }), getPeer: PeerGetter): ChatMember {
   const peer = "user_id" in participant ? getPeer({ ...participant, _: "peerUser" }) : "peer" in participant ? Array.isArray(participant.peer) ? participant.peer : participant.peer !== null ? getPeer(participant.peer) : unreachable() : unreachable();
-  if (!peer || peer[0].type !== "private") unreachable();
+  if (!peer) unreachable();
   if (Api.is("channelParticipant", participant) || Api.is("chatParticipant", participant)) {
     return {
       status: "member",
-- 
2.43.0


From 342d505b02470d2311b1ad1d744614b05e5991c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 100/102] fix: tell the server the kind of inline results that
 are files it has

---
 types/7_inline_query_result.ts | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/types/7_inline_query_result.ts b/types/7_inline_query_result.ts
index 2a447a5..63f7342 100644
--- a/types/7_inline_query_result.ts
+++ b/types/7_inline_query_result.ts
@@ -582,6 +582,24 @@ export function constructInlineQueryResult(result: Api.botInlineResult | Api.bot
   unreachable();
 }
 
+function getCachedResultType(type: InlineQueryResult["type"]) {
+  switch (type) {
+    case "cachedAudio":
+      return "audio";
+    case "cachedDocument":
+      return "file";
+    case "cachedGif":
+    case "cachedMpeg4Gif":
+      return "gif";
+    case "cachedVideo":
+      return "video";
+    case "cachedVoice":
+      return "voice";
+    default:
+      return type;
+  }
+}
+
 export async function inlineQueryResultToTlObject(
   result_: InlineQueryResult,
   parseText: (text: string, params?: { parseMode?: ParseMode; entities?: MessageEntity[] }) => readonly [
@@ -702,7 +720,7 @@ export async function inlineQueryResultToTlObject(
     return {
       _: "inputBotInlineResultDocument",
       id,
-      type: type === "document" ? "file" : type,
+      type: getCachedResultType(result_.type),
       title,
       description,
       document: {
-- 
2.43.0


From c308de0a00d98b034bb6cfccfd57a0c15a0a843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:56 +0000
Subject: [PATCH 101/102] fix: do not fail on inline results that are stickers

---
 types/7_inline_query_result.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/types/7_inline_query_result.ts b/types/7_inline_query_result.ts
index 63f7342..b86d9a1 100644
--- a/types/7_inline_query_result.ts
+++ b/types/7_inline_query_result.ts
@@ -553,6 +553,17 @@ export function constructInlineQueryResult(result: Api.botInlineResult | Api.bot
           });
         }
       }
+      case "sticker":
+        if (ref.type === "fileId") {
+          return cleanObject({
+            type: "sticker",
+            id,
+            fileId: ref.fileId,
+            messageContent,
+            replyMarkup,
+          });
+        }
+        break;
       case "document":
       case "file": // Does it really return this?
         if (ref.type === "fileId") {
-- 
2.43.0


From 91d1d8328940403c738c5a62dcc7f8be4dfe51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:56 +0000
Subject: [PATCH 102/102] fix: do not fail on inline results that are contacts

---
 types/7_inline_query_result.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/types/7_inline_query_result.ts b/types/7_inline_query_result.ts
index b86d9a1..411e696 100644
--- a/types/7_inline_query_result.ts
+++ b/types/7_inline_query_result.ts
@@ -347,6 +347,17 @@ export function constructInlineQueryResult(result: Api.botInlineResult | Api.bot
       foursquareType: result.send_message.venue_type,
       replyMarkup: result.send_message.reply_markup ? constructReplyMarkup(result.send_message.reply_markup) as ReplyMarkupInlineKeyboard : undefined,
     });
+  } else if (Api.is("botInlineMessageMediaContact", result.send_message)) {
+    return cleanObject({
+      type: "contact",
+      id,
+      phoneNumber: result.send_message.phone_number,
+      firstName: result.send_message.first_name,
+      lastName: result.send_message.last_name || undefined,
+      vcard: result.send_message.vcard || undefined,
+      thumbnailUrl: "thumb" in result ? result.thumb?.url : undefined,
+      replyMarkup: result.send_message.reply_markup ? constructReplyMarkup(result.send_message.reply_markup) as ReplyMarkupInlineKeyboard : undefined,
+    });
   } else if (Api.is("botInlineMessageMediaWebPage", result.send_message) || Api.is("botInlineMessageText", result.send_message)) {
     return cleanObject({
       type: "article",
-- 
2.43.0

