From 5625a3dcccb00edf7abfc22da427e71460cc06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/80] fix: report HTTP request timeouts as TimeoutError

aiohttp signals an exceeded total timeout with asyncio.TimeoutError, which is
not an instance of the library's own TimeoutError subclass, so timeouts were
reported as a plain KasaException and never retried.
---
 kasa/httpclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..fa35b49 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,7 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From e25a4d3ae92b1cceda388bf2b41d350d66daf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 02/80] fix: use secure passthrough again after a camera
 returns to secure login

Once a camera had been logged in with the less secure login, every later
session of the same transport was sent unencrypted even if the camera had
negotiated an encrypted session, so no request succeeded any more.
---
 kasa/transports/sslaestransport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index eeb2980..2a50d7e 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -468,6 +468,7 @@ class SslAesTransport(BaseTransport):
         self._seq = resp_dict["result"]["start_seq"]
         stok = resp_dict["result"]["stok"]
         self._token_url = URL(f"{str(self._app_url)}/stok={stok}/ds")
+        self._send_secure = True
         self._pwd_hash = pwd_hash
         self._local_nonce = local_nonce
         lsk = self.generate_encryption_token("lsk", local_nonce, server_nonce, pwd_hash)
-- 
2.43.0


From 1cc4030ce0589c869795e57a19d57f9fac819f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 03/80] fix: report unknown error codes of ssl transport
 devices as DeviceError

Unknown codes raised a bare ValueError instead of a library exception.
---
 kasa/transports/ssltransport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..8c1c9b7 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -117,7 +117,14 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
         if error_code == SmartErrorCode.SUCCESS:
             return
 
-- 
2.43.0


From a147b54a69dc30477c6554ae137128423a9fe641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 04/80] fix: keep connection errors and timeouts of the ssl
 default login retryable

They were wrapped into a plain KasaException when they happened during the
login with default credentials, unlike in the aes transport, so they were
neither retried nor reported as timeouts.
---
 kasa/transports/ssltransport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 8c1c9b7..3a22fb0 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -25,6 +25,8 @@ from kasa.exceptions import (
     DeviceError,
     KasaException,
     SmartErrorCode,
+    TimeoutError,
+    _ConnectionError,
     _RetryableError,
 )
 from kasa.httpclient import HttpClient
@@ -187,7 +189,7 @@ class SslTransport(BaseTransport):
                     "%s: logged in with default credentials",
                     self._host,
                 )
-            except AuthenticationError:
+            except (AuthenticationError, _ConnectionError, TimeoutError):
                 raise
             except Exception as ex:
                 raise KasaException(
-- 
2.43.0


From 253a2c00bb1f82a909182c79603f7c2bf75f570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 05/80] fix: query methods outside of batches completely

With batching disabled (batch size 1, or after a device refused a batch)
scanApList and getConnectStatus were dropped, methods without a result raised
KeyError and lists were not paged; re-queried methods were not paged either.
When such methods were part of a query a batch without requests could be sent.
---
 kasa/protocols/smartprotocol.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..9602e6e 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -220,23 +220,19 @@ class SmartProtocol(BaseProtocol):
         # Break the requests down as there can be a size limit
         step = self._multi_request_batch_size
         if step == 1:
-            # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
-                resp = await self._transport.send(req)
-                self._handle_response_error_code(
-                    resp, method, raise_on_error=raise_on_error
-                )
-                multi_result[method] = resp["result"]
-            return multi_result
+            # If step is 1 do not send request batches, all of the
+            # requests will be queried individually below.
+            multi_requests = []
 
-        for batch_num, i in enumerate(range(0, end, step)):
+        batch_end = len(multi_requests)
+        for batch_num, i in enumerate(range(0, batch_end, step)):
             requests_step = multi_requests[i : i + step]
 
             smart_params = {"requests": requests_step}
             smart_request = self.get_smart_request(smart_method, smart_params)
-            batch_name = f"multi-request-batch-{batch_num + 1}-of-{int(end / step) + 1}"
+            batch_name = (
+                f"multi-request-batch-{batch_num + 1}-of-{int(batch_end / step) + 1}"
+            )
             if debug_enabled:
                 _LOGGER.debug(
                     "%s %s >> %s",
@@ -312,7 +308,12 @@ class SmartProtocol(BaseProtocol):
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp.get("result")
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
         return multi_result
 
     async def _execute_query(
-- 
2.43.0


From eabf4b4e4384edf1503feaccba0ddea7db6f24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 06/80] fix: do not share module data between iot strip
 children

The per child responses of a split update were merged in place into the
nested dicts of the previous response, so the children's data leaked into
each other and into the parent.
---
 kasa/iot/iotdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..d020ff8 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -429,8 +429,10 @@ class IotDevice(Device):
                 # not supported the response
                 # {'err_code': -1, 'err_msg': 'module not support'}
                 # become top level key/values of the response so check for dict
+                # Do not update the previous module data in place as it is
+                # shared between the strip and its plugs.
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From 8f35d6a59f63de20d90f853f31499c72b98bf8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 07/80] fix: handle failing controlChild responses for camera
 children

---
 kasa/protocols/smartcamprotocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..dbe1362 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -249,8 +249,15 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
         raise_on_error = len(requests) == 1
 
         for index_id, response in enumerate(responses):
-            response_data = response["result"]["response_data"]
             method = methods[index_id]
+            # controlChild itself fails if e.g. the child is not reachable
+            if response.get("error_code"):
+                self._handle_response_error_code(
+                    response, method, raise_on_error=raise_on_error
+                )
+                response_dict[method] = response["result"]
+                continue
+            response_data = response["result"]["response_data"]
             self._handle_response_error_code(
                 response_data, method, raise_on_error=raise_on_error
             )
-- 
2.43.0


From fbe858454f345a427b4808d9979b8e644fba9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 08/80] fix: keep module data that is not due for update on
 smart children

---
 kasa/smart/smartchilddevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..e2cf846 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -101,7 +101,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Keep the data of the modules that were not due for an update
+            self._last_update = {**self._last_update, **resp}
 
         for module in self.modules.values():
             await self._handle_module_post_update(
-- 
2.43.0


From 1560a9244efbfd67f25dd327e4544e963a0caf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 09/80] fix: unbound initial_response when a smartcam child
 cannot be queried

---
 kasa/smartcam/smartcamdevice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..3026670 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -105,6 +105,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
+        initial_response: dict = {}
         try:
             initial_response = await child_protocol.query(
                 {"get_connect_cloud_state": None}
-- 
2.43.0


From b934cd2ce217d5fdafae7235ff593a2ffde1cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 10/80] fix: raise KasaException for malformed responses

---
 kasa/protocols/iotprotocol.py   | 11 +++++++++++
 kasa/protocols/smartprotocol.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 7ca02e0..a45bb9c 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -132,6 +132,17 @@ class IotProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # Malformed responses can fail anywhere in the response handling
+                await self._transport.reset()
+                _LOGGER.debug(
+                    "Unable to handle the response from %s, not retrying: %r",
+                    self._host,
+                    ex,
+                )
+                raise KasaException(
+                    f"Unable to handle the response from {self._host}: {ex!r}"
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 9602e6e..b1ef07c 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -194,6 +194,17 @@ class SmartProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # Malformed responses can fail anywhere in the response handling
+                await self._transport.reset()
+                _LOGGER.debug(
+                    "Unable to handle the response from %s, not retrying: %r",
+                    self._host,
+                    ex,
+                )
+                raise KasaException(
+                    f"Unable to handle the response from {self._host}: {ex!r}"
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
-- 
2.43.0


From 26bf28f9e56f36ad1c86377b58d30fa917e062d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 11/80] fix: raise KasaException when required device
 information is not available

---
 kasa/iot/iotdevice.py           | 20 +++++++++++++++++---
 kasa/smart/smartdevice.py       | 16 ++++++++++------
 kasa/smartcam/smartcamdevice.py | 15 ++++++++-------
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d020ff8..e9c0097 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -313,6 +313,7 @@ class IotDevice(Device):
         if not self._last_update:
             _LOGGER.debug("Performing the initial update to obtain sysinfo")
             response = await self.protocol.query(req)
+            self._verify_sys_info(response)
             self._last_update = response
             self._set_sys_info(_extract_sys_info(response))
 
@@ -412,9 +413,14 @@ class IotDevice(Device):
             req = merge(req, q)
         request_list.append(req)
 
-        responses = [
-            await self.protocol.query(request) for request in request_list if request
-        ]
+        responses = []
+        for request in request_list:
+            if not request:
+                continue
+            response = await self.protocol.query(request)
+            if "system" in request:
+                self._verify_sys_info(response)
+            responses.append(response)
 
         # Preserve the last update and merge
         # responses on top of it so we remember
@@ -458,6 +464,14 @@ class IotDevice(Device):
             no_region_model, _, _ = discovery_model.partition("(")
             self._set_sys_info({**info, "model": no_region_model})
 
+    def _verify_sys_info(self, response: dict[str, Any]) -> None:
+        """Raise an exception if the device did not return the system information."""
+        sys_info = _extract_sys_info(response)
+        if not sys_info or sys_info.get("err_code"):
+            raise KasaException(
+                f"Unable to get the system information from {self.host}: {response}"
+            )
+
     def _set_sys_info(self, sys_info: dict[str, Any]) -> None:
         """Set sys_info."""
         self._sys_info = sys_info
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..4fa7ab2 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -224,7 +224,9 @@ class SmartDevice(Device):
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
-        self._components_raw = cast(ComponentsRaw, resp["component_nego"])
+        self._components_raw = cast(
+            ComponentsRaw, self._try_get_response(resp, "component_nego")
+        )
 
         self._components = self._parse_components(self._components_raw)
 
@@ -237,12 +239,14 @@ class SmartDevice(Device):
         Return true if children added or deleted.
         """
         changed = False
-        if child_info := self._try_get_response(
+        child_info = self._try_get_response(
             self._last_update, "get_child_device_list", {}
-        ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["get_child_device_component_list"]
-            )
+        )
+        child_components = self._try_get_response(
+            self._last_update, "get_child_device_component_list", {}
+        )
+        if child_info and child_components:
+            changed = await self._create_delete_children(child_info, child_components)
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3026670..66eb924 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -82,12 +82,12 @@ class SmartCamDevice(SmartDevice):
         Return true if children added or deleted.
         """
         changed = False
-        if child_info := self._try_get_response(
-            self._last_update, "getChildDeviceList", {}
-        ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["getChildDeviceComponentList"]
-            )
+        child_info = self._try_get_response(self._last_update, "getChildDeviceList", {})
+        child_components = self._try_get_response(
+            self._last_update, "getChildDeviceComponentList", {}
+        )
+        if child_info and child_components:
+            changed = await self._create_delete_children(child_info, child_components)
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
@@ -215,7 +215,8 @@ class SmartCamDevice(SmartDevice):
         self._update_internal_info(resp)
 
         self._components_raw = cast(
-            ComponentsRaw, resp["getAppComponentList"]["app_component"]
+            ComponentsRaw,
+            self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
 
-- 
2.43.0


From f0cc1def1a11f88523f889cf46e5101ddceb51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 12/80] fix: retry the initialization after a failed first
 update

---
 kasa/smart/smartdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 4fa7ab2..2ec03dd 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -269,7 +269,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -278,6 +277,9 @@ class SmartDevice(Device):
             if cloud_mod := self.modules.get(Module.Cloud):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
+        # Only set this after the initialization so a failed one will be retried
+        self._last_update_time = now
+
         resp = await self._modular_update(first_update, now)
 
         children_changed = await self._update_children_info()
-- 
2.43.0


From 2aef84a8f2be6c32433b2215c2a23f0a808cd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 13/80] fix: reject responses of legacy devices that are not
 objects

---
 kasa/protocols/iotprotocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index a45bb9c..550edf7 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -157,6 +157,8 @@ class IotProtocol(BaseProtocol):
                 request,
             )
         resp = await self._transport.send(request)
+        if not isinstance(resp, dict):
+            raise KasaException(f"Unexpected response from {self._host}: {resp!r}")
 
         if debug_enabled:
             data = redact_data(resp, REDACTORS) if self._redact_data else resp
-- 
2.43.0


From 46ab8fe64de4d3461f17251eaf4d18907a96cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 14/80] fix: raise UnsupportedDeviceError for unsupported
 legacy device types

---
 kasa/device_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..30a2894 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,12 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (device_class := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(
+            f"Unsupported device type {device_type.value}: {sysinfo}"
+        )
+    return device_class
 
 
 def get_device_class_from_family(
-- 
2.43.0


From 2d8830a713e30d34d2cb1e91e77f52cd36318cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 15/80] fix: handle malformed discovery responses as invalid
 devices

---
 kasa/discover.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..17f3085 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -387,6 +387,13 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             self.invalid_device_exceptions[ip] = ex
             self._handle_discovered_event()
             return
+        except Exception as ex:
+            _LOGGER.debug("[DISCOVERY] Unable to handle response of %s: %r", ip, ex)
+            self.invalid_device_exceptions[ip] = KasaException(
+                f"Unable to handle response from device: {ip}: {ex!r}"
+            )
+            self._handle_discovered_event()
+            return
 
         self.discovered_devices[ip] = device
 
-- 
2.43.0


From 08cf999a8da61c2c882b695edca956e75069caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 16/80] fix: ignore packets that are not from a discovery port

---
 kasa/discover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 17f3085..88ec1cf 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -345,6 +345,8 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             assert _AesDiscoveryQuery.keypair
 
         ip, port = addr
+        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
+            return
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
@@ -361,11 +363,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             if port == self.discovery_port:
                 json_func = Discover._get_discovery_json_legacy
                 device_func = Discover._get_device_instance_legacy
-            elif port == Discover.DISCOVERY_PORT_2:
+            else:
                 json_func = Discover._get_discovery_json
                 device_func = Discover._get_device_instance
-            else:
-                return
             info = json_func(data, ip)
             if self.on_discovered_raw is not None:
                 self.on_discovered_raw(
-- 
2.43.0


From 0b7fe82618b548185fb05172b3186090dad034d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 17/80] fix: wait for the callbacks of all discovered devices

---
 kasa/discover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 88ec1cf..66462af 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -297,7 +297,11 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             # if target_discovered then cancel was called internally
             if not self.target_discovered:
                 raise
-        # Wait for any pending callbacks to complete
+        # Wait for any pending callbacks to complete, including those of devices
+        # that answer while waiting.
+        while pending := [task for task in self.callback_tasks if not task.done()]:
+            await asyncio.gather(*pending)
+        # Raise errors of the callbacks that already completed
         await asyncio.gather(*self.callback_tasks)
 
     def connection_made(self, transport: DatagramTransport) -> None:  # type: ignore[override]
-- 
2.43.0


From 72f52d10b8a6a5dfa4e628ee69d5f58e2b23fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 18/80] fix: stop callbacks and close devices when discovery
 fails or is cancelled

---
 kasa/discover.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 66462af..b252824 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -304,6 +304,12 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
         # Raise errors of the callbacks that already completed
         await asyncio.gather(*self.callback_tasks)
 
+    async def cancel_callbacks(self) -> None:
+        """Cancel all callbacks that are still running."""
+        for task in self.callback_tasks:
+            task.cancel()
+        await asyncio.gather(*self.callback_tasks, return_exceptions=True)
+
     def connection_made(self, transport: DatagramTransport) -> None:  # type: ignore[override]
         """Set socket options for broadcasting."""
         self.transport = cast(DatagramTransport, transport)
@@ -510,10 +516,13 @@ class Discover:
         try:
             _LOGGER.debug("Waiting %s seconds for responses...", discovery_timeout)
             await protocol.wait_for_discovery_to_complete()
-        except (KasaException, asyncio.CancelledError) as ex:
+        except BaseException:
+            # Stop receiving before cleaning up
+            transport.close()
+            await protocol.cancel_callbacks()
             for device in protocol.discovered_devices.values():
                 await device.protocol.close()
-            raise ex
+            raise
         finally:
             transport.close()
 
-- 
2.43.0


From 7cc5db492abdb741cd78f7ac6d4d7d5ae22a3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 19/80] fix: redact responses to single requests in debug logs

---
 kasa/protocols/smartcamprotocol.py | 10 ++++++++--
 kasa/protocols/smartprotocol.py    | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index dbe1362..8fe2d57 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -19,7 +19,8 @@ from ..transports.sslaestransport import (
     SMART_RETRYABLE_ERRORS,
     SmartErrorCode,
 )
-from .smartprotocol import SmartProtocol
+from .protocol import redact_data
+from .smartprotocol import REDACTORS, SmartProtocol
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -166,10 +167,15 @@ class SmartCamProtocol(SmartProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            data = (
+                redact_data(response_data, REDACTORS)
+                if self._redact_data
+                else response_data
+            )
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         if "error_code" in response_data:
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index b1ef07c..da2d166 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -293,7 +293,9 @@ class SmartProtocol(BaseProtocol):
                         _LOGGER.error(
                             "No method key in response for %s, skipping: %s",
                             self._host,
-                            response_step,
+                            redact_data(response_step, REDACTORS)
+                            if self._redact_data
+                            else response_step,
                         )
                     # These will end up being queried individually
                     continue
@@ -354,10 +356,15 @@ class SmartProtocol(BaseProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            data = (
+                redact_data(response_data, REDACTORS)
+                if self._redact_data
+                else response_data
+            )
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         self._handle_response_error_code(response_data, smart_method)
-- 
2.43.0


From a43676c833721e73bc780ca6962b5f87f280aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 20/80] fix: do not log unredacted responses in the ssl and
 linkie transports

---
 kasa/transports/linkietransport.py | 3 ++-
 kasa/transports/ssltransport.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kasa/transports/linkietransport.py b/kasa/transports/linkietransport.py
index b817373..ef40456 100644
--- a/kasa/transports/linkietransport.py
+++ b/kasa/transports/linkietransport.py
@@ -95,7 +95,8 @@ class LinkieTransportV2(BaseTransport):
             json_payload: dict = json_loads(
                 XorEncryption.decrypt(base64.b64decode(response))
             )
-            _LOGGER.debug("%s << %s", self._host, json_payload)
+            # The protocol logs the response with the private values redacted
+            _LOGGER.debug("Device %s query response received", self._host)
             return json_payload
         except Exception:  # noqa: S110
             pass
diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 3a22fb0..4d86e63 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -159,7 +159,8 @@ class SslTransport(BaseTransport):
                 + f"status code {status_code}"
             )
 
-        _LOGGER.debug("Response with %s: %r", status_code, resp_dict)
+        # The protocol logs the response with the private values redacted
+        _LOGGER.debug("Response with %s", status_code)
 
         await self._handle_response_error_code(resp_dict, "Error sending request")
 
-- 
2.43.0


From f8cabe5aa5626aa41274165fddd16eef79f74a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 21/80] fix: redact private values in the logged reason of
 unsupported devices

---
 kasa/device_factory.py |  5 ++++-
 kasa/discover.py       | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index 30a2894..c285d2b 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -24,6 +24,8 @@ from .protocols import (
     IotProtocol,
     SmartProtocol,
 )
+from .protocols.iotprotocol import REDACTORS as IOT_REDACTORS
+from .protocols.protocol import redact_data
 from .protocols.smartcamprotocol import SmartCamProtocol
 from .smart import SmartDevice
 from .smartcam import SmartCamDevice
@@ -145,7 +147,8 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
     device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
     if (device_class := TYPE_TO_CLASS.get(device_type)) is None:
         raise UnsupportedDeviceError(
-            f"Unsupported device type {device_type.value}: {sysinfo}"
+            f"Unsupported device type {device_type.value}: "
+            + f"{redact_data(sysinfo, IOT_REDACTORS)}"
         )
     return device_class
 
diff --git a/kasa/discover.py b/kasa/discover.py
index b252824..5584f08 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -918,8 +918,13 @@ class Discover:
             device_class := get_device_class_from_family(type_, https=conn_params.https)
         ) is None:
             _LOGGER.debug("Got unsupported device type: %s", type_)
+            data = (
+                redact_data(info, NEW_DISCOVERY_REDACTORS)
+                if Discover._redact_data
+                else info
+            )
             raise UnsupportedDeviceError(
-                f"Unsupported device {config.host} of type {type_}: {info}",
+                f"Unsupported device {config.host} of type {type_}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
@@ -928,9 +933,14 @@ class Discover:
             _LOGGER.debug(
                 "Got unsupported connection type: %s", config.connection_type.to_dict()
             )
+            data = (
+                redact_data(info, NEW_DISCOVERY_REDACTORS)
+                if Discover._redact_data
+                else info
+            )
             raise UnsupportedDeviceError(
                 f"Unsupported encryption scheme {config.host} of "
-                + f"type {config.connection_type.to_dict()}: {info}",
+                + f"type {config.connection_type.to_dict()}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
-- 
2.43.0


From 1f792924e0c1f898f960f89f1d3cd26801a1ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 22/80] fix: keep devices usable when the device info or the
 consumables cannot be read

The last known device info is kept when an update fails, so that the model
and the representation of the device stay available, and a vacuum whose
consumables cannot be read on the first update no longer fails the update.
---
 kasa/smart/modules/consumables.py |  2 +-
 kasa/smart/smartdevice.py         | 20 +++++++++++++++-----
 kasa/smartcam/smartcamdevice.py   |  4 +++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..ded8f98 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -91,7 +91,7 @@ class Consumables(SmartModule):
     def _initialize_features(self) -> None:
         """Initialize features."""
         for c_meta in CONSUMABLE_METAS:
-            if c_meta.data_key not in self.data:
+            if c_meta.id not in self._consumables:
                 continue
 
             self._add_feature(
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2ec03dd..26c777a 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -51,6 +51,8 @@ class SmartDevice(Device):
 
     # Modules that are called as part of the init procedure on first update
     FIRST_UPDATE_MODULES = {DeviceModule, ChildDevice, Cloud}
+    # Query that returns the device info
+    DEVICE_INFO_QUERY = "get_device_info"
 
     def __init__(
         self,
@@ -217,10 +219,6 @@ class SmartDevice(Device):
         }
         resp = await self.protocol.query(initial_query)
 
-        # Save the initial state to allow modules access the device info already
-        # during the initialization, which is necessary as some information like the
-        # supported color temperature range is contained within the response.
-        self._last_update.update(resp)
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
@@ -228,6 +226,11 @@ class SmartDevice(Device):
             ComponentsRaw, self._try_get_response(resp, "component_nego")
         )
 
+        # Save the initial state to allow modules access the device info already
+        # during the initialization, which is necessary as some information like the
+        # supported color temperature range is contained within the response.
+        self._last_update.update(resp)
+
         self._components = self._parse_components(self._components_raw)
 
         if "child_device" in self._components and not self.children:
@@ -359,7 +362,14 @@ class SmartDevice(Device):
             )
 
         info_resp = self._last_update if first_update else resp
-        self._last_update.update(**resp)
+        # Keep the last known device info if it could not be read
+        self._last_update.update(
+            {
+                k: v
+                for k, v in resp.items()
+                if k != self.DEVICE_INFO_QUERY or not isinstance(v, SmartErrorCode)
+            }
+        )
         self._update_internal_info(info_resp)
 
         # Call handle update for modules that want to update internal data
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 66eb924..6b60d62 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -22,6 +22,8 @@ class SmartCamDevice(SmartDevice):
 
     # Modules that are called as part of the init procedure on first update
     FIRST_UPDATE_MODULES = {DeviceModule, ChildDevice}
+    # Query that returns the device info
+    DEVICE_INFO_QUERY = "getDeviceInfo"
 
     @staticmethod
     def _get_device_type_from_sysinfo(sysinfo: dict[str, Any]) -> DeviceType:
@@ -211,7 +213,6 @@ class SmartCamDevice(SmartDevice):
             "getConnectionType": {"network": {"get_connection_type": {}}},
         }
         resp = await self.protocol.query(initial_query)
-        self._last_update.update(resp)
         self._update_internal_info(resp)
 
         self._components_raw = cast(
@@ -219,6 +220,7 @@ class SmartCamDevice(SmartDevice):
             self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
+        self._last_update.update(resp)
 
         if "childControl" in self._components and not self.children:
             await self._initialize_children()
-- 
2.43.0


From 90fa4f248ac74e0aab67363c97e572a38e8c2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 23/80] fix: do not share the consumables between vacuums

---
 kasa/smart/modules/consumables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index ded8f98..a8df95d 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -6,10 +6,14 @@ import logging
 from collections.abc import Mapping
 from dataclasses import dataclass
 from datetime import timedelta
+from typing import TYPE_CHECKING
 
 from ...feature import Feature
 from ..smartmodule import SmartModule
 
+if TYPE_CHECKING:
+    from ..smartdevice import SmartDevice
+
 _LOGGER = logging.getLogger(__name__)
 
 
@@ -86,7 +90,9 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    def __init__(self, device: SmartDevice, module: str) -> None:
+        super().__init__(device, module)
+        self._consumables: dict[str, Consumable] = {}
 
     def _initialize_features(self) -> None:
         """Initialize features."""
-- 
2.43.0


From 345d6df613e4bc36ba60d165c6eab7cc5d110d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:34 +0000
Subject: [PATCH 24/80] fix: do not change the responses while parsing the
 vacuum state and records

---
 kasa/smart/modules/clean.py        |  2 +-
 kasa/smart/modules/cleanrecords.py | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index 376e0d3..d6ba45c 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -240,7 +240,7 @@ class Clean(SmartModule):
                 "Multiple error codes, using the first one only: %s", errors
             )
 
-        error = errors.pop(0)
+        error = errors[0]
         try:
             self._error_code = ErrorCode(error)
         except ValueError:
diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..b66668b 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -87,11 +87,15 @@ class Records(DataClassDictMixin):
     @classmethod
     def __pre_deserialize__(cls, d: dict) -> dict:
         if ldr := d.get("lastest_day_record"):
-            d["lastest_day_record"] = {
-                "timestamp": ldr[0],
-                "clean_time": ldr[1],
-                "clean_area": ldr[2],
-                "dust_collection": ldr[3],
+            # Do not change the response as it is also used by others
+            d = {
+                **d,
+                "lastest_day_record": {
+                    "timestamp": ldr[0],
+                    "clean_time": ldr[1],
+                    "clean_area": ldr[2],
+                    "dust_collection": ldr[3],
+                },
             }
         return d
 
-- 
2.43.0


From b68adfe11f2337f55d34e6545fdd2868ac8fbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:25 +0000
Subject: [PATCH 25/80] fix: report the model of children that have no queries
 of their own

---
 kasa/smart/smartchilddevice.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index e2cf846..d5155ca 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -140,6 +140,14 @@ class SmartChildDevice(SmartDevice):
         await child._initialize_modules()
         return child
 
+    @property
+    def model(self) -> str:
+        """Return the child device model.
+
+        The parent provides the info so this does not depend on own queries.
+        """
+        return str(self._info.get("model"))
+
     @property
     def device_type(self) -> DeviceType:
         """Return child device type."""
-- 
2.43.0


From 6f28b5d15f5dc5bf27de231d3765afd7798736ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 26/80] fix: report readable values for the water alert time
 and the dimmer times

The timestamp was looked up in the sensor's own (missing) time module, and the
number features of the dimmer returned timedeltas that are not comparable with
their range nor accepted when set.
---
 kasa/iot/modules/dimmer.py            | 8 ++++----
 kasa/smart/modules/waterleaksensor.py | 4 ++--
 kasa/smart/smartdevice.py             | 6 ++++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kasa/iot/modules/dimmer.py b/kasa/iot/modules/dimmer.py
index 42a93ce..e1daccb 100644
--- a/kasa/iot/modules/dimmer.py
+++ b/kasa/iot/modules/dimmer.py
@@ -63,7 +63,7 @@ class Dimmer(IotModule):
                 id="dimmer_fade_off_time",
                 name="Dimmer fade off time",
                 icon="mdi:clock-in",
-                attribute_getter="fade_off_time",
+                attribute_getter=lambda x: _td_to_ms(x.fade_off_time),
                 attribute_setter="set_fade_off_time",
                 range_getter=lambda: (
                     _td_to_ms(self.FADE_TIME_ABS_MIN),
@@ -81,7 +81,7 @@ class Dimmer(IotModule):
                 id="dimmer_fade_on_time",
                 name="Dimmer fade on time",
                 icon="mdi:clock-out",
-                attribute_getter="fade_on_time",
+                attribute_getter=lambda x: _td_to_ms(x.fade_on_time),
                 attribute_setter="set_fade_on_time",
                 range_getter=lambda: (
                     _td_to_ms(self.FADE_TIME_ABS_MIN),
@@ -99,7 +99,7 @@ class Dimmer(IotModule):
                 id="dimmer_gentle_off_time",
                 name="Dimmer gentle off time",
                 icon="mdi:clock-in",
-                attribute_getter="gentle_off_time",
+                attribute_getter=lambda x: _td_to_ms(x.gentle_off_time),
                 attribute_setter="set_gentle_off_time",
                 range_getter=lambda: (
                     _td_to_ms(self.GENTLE_TIME_ABS_MIN),
@@ -117,7 +117,7 @@ class Dimmer(IotModule):
                 id="dimmer_gentle_on_time",
                 name="Dimmer gentle on time",
                 icon="mdi:clock-out",
-                attribute_getter="gentle_on_time",
+                attribute_getter=lambda x: _td_to_ms(x.gentle_on_time),
                 attribute_setter="set_gentle_on_time",
                 range_getter=lambda: (
                     _td_to_ms(self.GENTLE_TIME_ABS_MIN),
diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..d06e997 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -6,7 +6,7 @@ from datetime import datetime
 from enum import Enum
 
 from ...feature import Feature
-from ..smartmodule import Module, SmartModule
+from ..smartmodule import SmartModule
 
 
 class WaterleakStatus(Enum):
@@ -84,5 +84,5 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        tz = self._device.timezone
         return datetime.fromtimestamp(ts, tz=tz)
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 26c777a..6a56ac2 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -653,6 +653,12 @@ class SmartDevice(Device):
     @property
     def timezone(self) -> tzinfo:
         """Return the timezone and time_difference."""
+        # The timezone is known even if the current time could not be read
+        if (time_mod := self.modules.get(Module.Time)) or (
+            self._parent and (time_mod := self._parent.modules.get(Module.Time))
+        ):
+            return time_mod.timezone
+
         if TYPE_CHECKING:
             assert self.time.tzinfo
         return self.time.tzinfo
-- 
2.43.0


From c82a9b6e329be2b0592d7e921620e03b86b9d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 27/80] fix: send the alarm volume in the format of the device

---
 kasa/smart/modules/alarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..77f0a45 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,9 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
+        target_volume = self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = target_volume
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From e00668efc25a7c58c4c4f3201a32d632e86e4359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 28/80] fix: reject not-a-number values of number features

---
 kasa/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/feature.py b/kasa/feature.py
index 0c4c6e2..423fdd6 100644
--- a/kasa/feature.py
+++ b/kasa/feature.py
@@ -248,7 +248,7 @@ class Feature:
         if self.type == Feature.Type.Number:  # noqa: SIM102
             if not isinstance(value, int | float):
                 raise ValueError("value must be a number")
-            if value < self.minimum_value or value > self.maximum_value:
+            if not self.minimum_value <= value <= self.maximum_value:
                 raise ValueError(
                     f"Value {value} out of range "
                     f"[{self.minimum_value}, {self.maximum_value}]"
-- 
2.43.0


From a1eb9f801b1a195520ad548c6c085b3765513a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:14 +0000
Subject: [PATCH 29/80] fix: bind the fan speed setter of vacuums to its
 feature

---
 kasa/smart/modules/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index d6ba45c..6ea3922 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -317,7 +317,7 @@ class Clean(SmartModule):
 
     async def set_fan_speed_preset(
         self, speed: str
-    ) -> Annotated[dict, FeatureAttribute]:
+    ) -> Annotated[dict, FeatureAttribute()]:
         """Set fan speed preset."""
         name_to_value = {x.name: x.value for x in FanSpeed}
         if speed not in name_to_value:
-- 
2.43.0


From 1e2071905ec087558f88c2586ba776422efe79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 30/80] fix: send the values of the dimmer action and fade
 types

---
 kasa/iot/iotdimmer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iotdimmer.py b/kasa/iot/iotdimmer.py
index 6b22d64..8b0ccfc 100644
--- a/kasa/iot/iotdimmer.py
+++ b/kasa/iot/iotdimmer.py
@@ -204,9 +204,9 @@ class IotDimmer(IotPlug):
          (nothing, instant, gentle, change preset)
         :param index int: in case of preset change, the preset to select
         """
-        action_type_setter = f"set_{action_type}"
+        action_type_setter = f"set_{action_type.value}"
 
-        payload: dict[str, Any] = {"mode": str(action)}
+        payload: dict[str, Any] = {"mode": action.value}
         if index is not None:
             payload["index"] = index
 
@@ -217,7 +217,7 @@ class IotDimmer(IotPlug):
     @requires_update
     async def set_fade_time(self, fade_type: FadeType, time: int) -> dict:
         """Set time for fade in / fade out."""
-        fade_type_setter = f"set_{fade_type}_time"
+        fade_type_setter = f"set_{fade_type.value}_time"
         payload = {"fadeTime": time}
 
         return await self._query_helper(self.DIMMER_SERVICE, fade_type_setter, payload)
-- 
2.43.0


From 9114a4fdd44546b12adeae4cfa66cbda7ba7108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 31/80] fix: read the night mode settings of leds from where
 devices report them

---
 kasa/smart/modules/led.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/led.py b/kasa/smart/modules/led.py
index 1733c3c..8710f0d 100644
--- a/kasa/smart/modules/led.py
+++ b/kasa/smart/modules/led.py
@@ -43,10 +43,11 @@ class Led(SmartModule, LedInterface):
     @property
     def night_mode_settings(self) -> dict:
         """Night mode settings."""
+        night_mode = self.data["night_mode"]
         return {
-            "start": self.data["start_time"],
-            "end": self.data["end_time"],
-            "type": self.data["night_mode_type"],
-            "sunrise_offset": self.data["sunrise_offset"],
-            "sunset_offset": self.data["sunset_offset"],
+            "start": night_mode["start_time"],
+            "end": night_mode["end_time"],
+            "type": night_mode["night_mode_type"],
+            "sunrise_offset": night_mode["sunrise_offset"],
+            "sunset_offset": night_mode["sunset_offset"],
         }
-- 
2.43.0


From d18316b530432a215d4eecac1f5a78c4016e4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:22 +0000
Subject: [PATCH 32/80] fix: send the turn-on behaviours of bulbs under the
 names devices use

---
 kasa/iot/iotbulb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..3a5b5b6 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -74,6 +74,11 @@ class TurnOnBehavior(DataClassDictMixin):
 class TurnOnBehaviors(DataClassDictMixin):
     """Model to contain turn on behaviors."""
 
+    class Config(BaseConfig):
+        """Serialization config."""
+
+        serialize_by_alias = True
+
     #: The behavior when the bulb is turned on programmatically.
     soft: Annotated[TurnOnBehavior, Alias("soft_on")]
     #: The behavior when the bulb has been off from mains power.
-- 
2.43.0


From 1799e80a1af7243c76382ab3958b5ec5a91cb341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:22 +0000
Subject: [PATCH 33/80] fix: set the mode of a turn-on behaviour from its
 preset

---
 kasa/iot/iotbulb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index 3a5b5b6..a0d5c42 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -69,6 +69,14 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __post_serialize__(self, d: dict) -> dict:
+        """Set the mode based on the preset."""
+        if self.preset is not None:
+            d["mode"] = BehaviorMode.Preset.value
+        elif self.mode is BehaviorMode.Preset:
+            d["mode"] = BehaviorMode.Last.value
+        return d
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
-- 
2.43.0


From 6d26486ac15bf62520c3df5a9261382766d897e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:22 +0000
Subject: [PATCH 34/80] fix: do not send light_on to SMART lights

---
 kasa/smart/modules/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/light.py b/kasa/smart/modules/light.py
index d548811..0eb49a9 100644
--- a/kasa/smart/modules/light.py
+++ b/kasa/smart/modules/light.py
@@ -117,13 +117,13 @@ class Light(SmartModule, LightInterface):
     async def set_state(self, state: LightState) -> dict:
         """Set the light state."""
         state_dict = asdict(state)
+        del state_dict["light_on"]
         # brightness of 0 turns off the light, it's not a valid brightness
         if state.brightness == 0:
             state_dict["device_on"] = False
             del state_dict["brightness"]
         elif state.light_on is not None:
             state_dict["device_on"] = state.light_on
-            del state_dict["light_on"]
         else:
             state_dict["device_on"] = True
 
-- 
2.43.0


From 1818db20052fe9562088b9e6a922de4c63acdeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 35/80] fix: validate the brightness given with a color
 temperature

---
 kasa/smart/modules/colortemperature.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kasa/smart/modules/colortemperature.py b/kasa/smart/modules/colortemperature.py
index 32d6e67..8ce3c66 100644
--- a/kasa/smart/modules/colortemperature.py
+++ b/kasa/smart/modules/colortemperature.py
@@ -65,6 +65,13 @@ class ColorTemperature(SmartModule):
                     *valid_temperature_range, temp
                 )
             )
+        if brightness is not None:
+            if not isinstance(brightness, int):
+                raise TypeError("Brightness must be an integer")
+            if not (0 <= brightness <= 100):
+                raise ValueError(
+                    f"Invalid brightness value: {brightness} (valid range: 0-100%)"
+                )
         params = {"color_temp": temp}
         if brightness:
             params["brightness"] = brightness
-- 
2.43.0


From 39f57a809229e3b1aad3912b6c2b6d69a801e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 36/80] fix: update devices that report an energy meter but do
 not support its module

---
 kasa/iot/modules/emeter.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 012bda0..87eb3b6 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -14,17 +14,13 @@ class Emeter(Usage, EnergyInterface):
 
     async def _post_update_hook(self) -> None:
         self._supported = EnergyInterface.ModuleFeature.PERIODIC_STATS
-        if (
-            "voltage_mv" in self.data["get_realtime"]
-            or "voltage" in self.data["get_realtime"]
-        ):
+        # The device may not support the module even if it reports the feature
+        realtime = self.data.get("get_realtime", {})
+        if "voltage_mv" in realtime or "voltage" in realtime:
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.VOLTAGE_CURRENT
             )
-        if (
-            "total_wh" in self.data["get_realtime"]
-            or "total" in self.data["get_realtime"]
-        ):
+        if "total_wh" in realtime or "total" in realtime:
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.CONSUMPTION_TOTAL
             )
-- 
2.43.0


From 6274c1951388aecc91a44df53dc7ae4aad49476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 37/80] fix: raise the library exception for modules of IOT
 devices before the first update

---
 kasa/iot/iotdevice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index e9c0097..c1dbb7e 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -208,6 +208,8 @@ class IotDevice(Device):
     @requires_update
     def modules(self) -> ModuleMapping[IotModule]:
         """Return the device modules."""
+        if self._supported_modules is None:
+            raise KasaException("You need to await update() to access the modules")
         if TYPE_CHECKING:
             return cast(ModuleMapping[IotModule], self._supported_modules)
         return self._supported_modules
-- 
2.43.0


From 939a6a57f623bda6d864679726722f64d2289fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:52 +0000
Subject: [PATCH 38/80] fix: raise the library exception for device_info of IOT
 devices before the first update

---
 kasa/iot/iotdevice.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index c1dbb7e..e3f3101 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -760,6 +760,12 @@ class IotDevice(Device):
         _LOGGER.warning("Unknown device type %s, falling back to plug", type_)
         return DeviceType.Plug
 
+    @property
+    @requires_update
+    def device_info(self) -> DeviceInfo:
+        """Return device info."""
+        return super().device_info
+
     @staticmethod
     def _get_device_info(
         info: dict[str, Any], discovery_info: dict[str, Any] | None
-- 
2.43.0


From 5b6bafdd8cf675a0ac3b72393101807d7ab25734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 39/80] fix: follow the reported switch-on moment in both
 directions

---
 kasa/iot/iotdevice.py     | 4 +---
 kasa/iot/iotstrip.py      | 4 +---
 kasa/smart/smartdevice.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index e3f3101..a9153a7 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -660,9 +660,7 @@ class IotDevice(Device):
         on_time = self._sys_info["on_time"]
 
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..251b13c 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -467,9 +467,7 @@ class IotStripPlug(IotPlug):
         time = self._parent.time
 
         on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 6a56ac2..9b9f3e7 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -644,9 +644,7 @@ class SmartDevice(Device):
 
         on_time = cast(float, on_time)
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
-- 
2.43.0


From 0a5870d88a378ac2597e15394087488f3f2cebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 40/80] fix: keep the switch-on moment over daylight saving
 changes

---
 kasa/iot/iotdevice.py     | 8 +++++---
 kasa/iot/iotstrip.py      | 7 ++++---
 kasa/smart/smartdevice.py | 6 ++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index a9153a7..cff7a3c 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -18,7 +18,7 @@ import functools
 import inspect
 import logging
 from collections.abc import Callable, Mapping, Sequence
-from datetime import datetime, timedelta, tzinfo
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
 
@@ -659,9 +659,11 @@ class IotDevice(Device):
 
         on_time = self._sys_info["on_time"]
 
-        on_since = self.time - timedelta(seconds=on_time)
+        time = self.time
+        # Subtract in UTC, local time is not continuous over DST changes
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
         if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
-            self._on_since = on_since
+            self._on_since = on_since.astimezone(time.tzinfo)
         return self._on_since
 
     @property  # type: ignore
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 251b13c..28af559 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import UTC, datetime, timedelta
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -466,9 +466,10 @@ class IotStripPlug(IotPlug):
 
         time = self._parent.time
 
-        on_since = time - timedelta(seconds=on_time)
+        # Subtract in UTC, local time is not continuous over DST changes
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
         if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
-            self._on_since = on_since
+            self._on_since = on_since.astimezone(time.tzinfo)
         return self._on_since
 
     @property  # type: ignore
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 9b9f3e7..d8c1e4a 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -643,9 +643,11 @@ class SmartDevice(Device):
             return None
 
         on_time = cast(float, on_time)
-        on_since = self.time - timedelta(seconds=on_time)
+        time = self.time
+        # Subtract in UTC, local time is not continuous over DST changes
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
         if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
-            self._on_since = on_since
+            self._on_since = on_since.astimezone(time.tzinfo)
         return self._on_since
 
     @property
-- 
2.43.0


From 29d31a6c851912c2a0dd03fabf2e66c64118a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 41/80] fix: do not report the usage of another month or year
 as the current one

---
 kasa/iot/modules/emeter.py | 22 ++++++++++++++--------
 kasa/iot/modules/usage.py  | 12 ++++++++----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 87eb3b6..c8bd1a2 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -33,18 +33,24 @@ class Emeter(Usage, EnergyInterface):
     @property
     def consumption_today(self) -> float | None:
         """Return today's energy consumption in kWh."""
-        raw_data = self.daily_data
-        today = datetime.now().day
-        data = self._convert_stat_data(raw_data, entry_key="day", key=today)
-        return data.get(today, 0.0)
+        now = datetime.now()
+        # The data may be from the same day of another month
+        raw_data = [
+            entry
+            for entry in self.daily_data
+            if (entry["year"], entry["month"]) == (now.year, now.month)
+        ]
+        data = self._convert_stat_data(raw_data, entry_key="day", key=now.day)
+        return data.get(now.day, 0.0)
 
     @property
     def consumption_this_month(self) -> float | None:
         """Return this month's energy consumption in kWh."""
-        raw_data = self.monthly_data
-        current_month = datetime.now().month
-        data = self._convert_stat_data(raw_data, entry_key="month", key=current_month)
-        return data.get(current_month, 0.0)
+        now = datetime.now()
+        # The data may be from the same month of another year
+        raw_data = [entry for entry in self.monthly_data if entry["year"] == now.year]
+        data = self._convert_stat_data(raw_data, entry_key="month", key=now.month)
+        return data.get(now.month, 0.0)
 
     @property
     def current_consumption(self) -> float | None:
diff --git a/kasa/iot/modules/usage.py b/kasa/iot/modules/usage.py
index 89d8cca..54fd233 100644
--- a/kasa/iot/modules/usage.py
+++ b/kasa/iot/modules/usage.py
@@ -42,20 +42,24 @@ class Usage(IotModule):
     @property
     def usage_today(self) -> int | None:
         """Return today's usage in minutes."""
-        today = datetime.now().day
+        now = datetime.now()
         # Traverse the list in reverse order to find the latest entry.
         for entry in reversed(self.daily_data):
-            if entry["day"] == today:
+            if (entry["year"], entry["month"], entry["day"]) == (
+                now.year,
+                now.month,
+                now.day,
+            ):
                 return entry["time"]
         return None
 
     @property
     def usage_this_month(self) -> int | None:
         """Return usage in this month in minutes."""
-        this_month = datetime.now().month
+        now = datetime.now()
         # Traverse the list in reverse order to find the latest entry.
         for entry in reversed(self.monthly_data):
-            if entry["month"] == this_month:
+            if (entry["year"], entry["month"]) == (now.year, now.month):
                 return entry["time"]
         return None
 
-- 
2.43.0


From 78a09ed77bb73c57a27ba81ac37609d525e1e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 42/80] fix: update IOT devices that do not tell their time
 zone

---
 kasa/iot/iottimezone.py  | 2 +-
 kasa/iot/modules/time.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index 6553834..e10369e 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -14,7 +14,7 @@ _LOGGER = logging.getLogger(__name__)
 
 async def get_timezone(index: int) -> tzinfo:
     """Get the timezone from the index."""
-    if index > 109:
+    if index not in TIMEZONE_INDEX:
         _LOGGER.error(
             "Unexpected index %s not configured as a timezone, defaulting to UTC", index
         )
diff --git a/kasa/iot/modules/time.py b/kasa/iot/modules/time.py
index 896172d..30f8d39 100644
--- a/kasa/iot/modules/time.py
+++ b/kasa/iot/modules/time.py
@@ -24,8 +24,10 @@ class Time(IotModule, TimeInterface):
 
     async def _post_update_hook(self) -> None:
         """Perform actions after a device update."""
-        if res := self.data.get("get_timezone"):
-            self._timezone = await get_timezone(res.get("index"))
+        index = self.data.get("get_timezone", {}).get("index")
+        # The device may not be able to tell its timezone
+        if index is not None:
+            self._timezone = await get_timezone(index)
 
     @property
     def time(self) -> datetime:
-- 
2.43.0


From 94762dd7fa2a66e3815ad7e53a4572d637a2e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 43/80] fix: raise ValueError for fixed offsets IOT devices do
 not support

---
 kasa/iot/iottimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index e10369e..7b85ace 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -35,7 +35,7 @@ async def get_timezone_index(tzone: tzinfo) -> int:
     for i in range(110):
         if _is_same_timezone(tzone, await get_timezone(i)):
             return i
-    raise ValueError("Device does not support timezone %s", name)
+    raise ValueError(f"Device does not support timezone {tzone}")
 
 
 async def get_matching_timezones(tzone: tzinfo) -> list[str]:
-- 
2.43.0


From 14509c2a50592e84009fa5eea48fc42cc7d019ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 44/80] fix: set the local time of cameras in their own time
 zone

---
 kasa/smartcam/modules/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/time.py b/kasa/smartcam/modules/time.py
index 54ee30e..cb46b4f 100644
--- a/kasa/smartcam/modules/time.py
+++ b/kasa/smartcam/modules/time.py
@@ -82,7 +82,9 @@ class Time(SmartCamModule, TimeInterface):
         else:
             timestamp = dt.timestamp()
 
-        lt = datetime.fromtimestamp(timestamp).isoformat().replace("T", " ")
+        # The device shows the local time of its own timezone
+        tz = dt.tzinfo if isinstance(dt.tzinfo, ZoneInfo) else self.timezone
+        lt = datetime.fromtimestamp(int(timestamp), tz).strftime("%Y-%m-%d %H:%M:%S")
         params = {"seconds_from_1970": int(timestamp), "local_time": lt}
         # Doesn't seem to update the time, perhaps because timing_mode is ntp
         res = await self.call("setTimezone", {"system": {"clock_status": params}})
-- 
2.43.0


From 492c5023b68c98d39dc1a2ef8f11747276ea3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:19 +0000
Subject: [PATCH 45/80] fix: read the active effect of bulbs from the device
 info

---
 kasa/smart/modules/lighteffect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..1ca6462 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -119,6 +119,9 @@ class LightEffect(SmartModule, SmartLightEffect):
 
         If *effect_id* is None, return the data for active effect.
         """
+        if effect_id is None:
+            # The rules are not queried on every update, use the device info which is
+            effect_id = self._device._info.get("dynamic_light_effect_id")
         if effect_id is None:
             effect_id = self.data["current_rule_id"]
 
-- 
2.43.0


From 18ec102ed8168c431c4d843e196a0436b26d0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:19 +0000
Subject: [PATCH 46/80] fix: accept raw scene names that happen to be decodable
 base64

---
 kasa/smart/modules/lighteffect.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 1ca6462..b2c6fab 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import base64
-import binascii
 import contextlib
 import copy
 from typing import Any
@@ -40,7 +39,7 @@ class LightEffect(SmartModule, SmartLightEffect):
                 effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS[effect["id"]]
             else:
                 # Otherwise it might be b64 encoded or raw string
-                with contextlib.suppress(binascii.Error):
+                with contextlib.suppress(ValueError):
                     effect["scene_name"] = base64.b64decode(
                         effect["scene_name"]
                     ).decode()
-- 
2.43.0


From 47fdb0e8688ba3e63e9e1bca465ed4efac38f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:19 +0000
Subject: [PATCH 47/80] fix: save SMART light presets at their own index

---
 kasa/smart/modules/lightpreset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..747254b 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -28,6 +28,7 @@ class LightPreset(SmartModule, LightPresetInterface):
 
     _presets: dict[str, LightState]
     _preset_list: list[str]
+    _preset_indexes: dict[str, int]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
         super().__init__(device, module)
@@ -38,10 +39,11 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        self._preset_indexes = {}
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for device_index, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -53,6 +55,7 @@ class LightPreset(SmartModule, LightPresetInterface):
                 color_temp = preset_state.get("color_temp")
                 hue = preset_state.get("hue")
                 saturation = preset_state.get("saturation")
+                self._preset_indexes[f"Light preset {index + 1}"] = device_index
                 self._presets[f"Light preset {index + 1}"] = LightState(
                     brightness=preset_state["brightness"],
                     color_temp=color_temp,
@@ -148,7 +151,8 @@ class LightPreset(SmartModule, LightPresetInterface):
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
             return await self.call(
-                "edit_preset_rules", {"index": index, "state": new_info}
+                "edit_preset_rules",
+                {"index": self._preset_indexes[preset_name], "state": new_info},
             )
 
     @property
-- 
2.43.0


From aebb0c67fe1c3af3410793cc20f1956d982c6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:19 +0000
Subject: [PATCH 48/80] fix: do not treat color lights with a brightness preset
 as brightness only

---
 kasa/smart/modules/lightpreset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 747254b..fdd29fa 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -62,9 +62,13 @@ class LightPreset(SmartModule, LightPresetInterface):
                     hue=hue,
                     saturation=saturation,
                 )
-                if color_temp is None and hue is None and saturation is None:
-                    self._brightness_only = True
                 index = index + 1
+            self._brightness_only = all(
+                state.color_temp is None
+                and state.hue is None
+                and state.saturation is None
+                for state in self._presets.values()
+            )
         elif preset_brightnesses := self.data.get("brightness"):
             self._brightness_only = True
             for preset_brightness in preset_brightnesses:
-- 
2.43.0


From 7b433f0fe2f03a0c4ab913a3163af5640432cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:19 +0000
Subject: [PATCH 49/80] fix: save IOT light presets at their own index

---
 kasa/iot/modules/lightpreset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..551bc14 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -134,7 +134,7 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
+        index = self._presets[preset_name].index
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
@@ -163,7 +163,7 @@ class LightPreset(IotModule, LightPresetInterface):
         if len(self._presets) == 0:
             raise KasaException("Device does not supported saving presets")
 
-        if preset.index >= len(self._presets):
+        if preset.index >= len(self.data["preferred_state"]):
             raise KasaException("Invalid preset index")
 
         return await self.call("set_preferred_state", preset.to_dict())
-- 
2.43.0


From 1c74626d7b3be275cbe42989ab37d47f684aae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:04 +0000
Subject: [PATCH 50/80] fix: keep the stored scene name when setting the
 brightness of a bulb effect

---
 kasa/smart/modules/lighteffect.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index b2c6fab..74d71e7 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -26,6 +26,7 @@ class LightEffect(SmartModule, SmartLightEffect):
     _effect_state_list: dict[str, dict[str, Any]]
     _effect_list: list[str]
     _scenes_names_to_id: dict[str, str]
+    _stored_scene_names: dict[str, str]
 
     async def _post_update_hook(self) -> None:
         """Update internal effect state."""
@@ -33,6 +34,9 @@ class LightEffect(SmartModule, SmartLightEffect):
         effects = copy.deepcopy(
             {effect["id"]: effect for effect in self.data["rule_list"]}
         )
+        self._stored_scene_names = {
+            effect["id"]: effect["scene_name"] for effect in effects.values()
+        }
         for effect in effects.values():
             if not effect["scene_name"]:
                 # If the name has not been edited scene_name will be an empty string
@@ -158,6 +162,9 @@ class LightEffect(SmartModule, SmartLightEffect):
             for state in new_effect["color_status_list"]
         ]
         new_effect["color_status_list"] = new_color_status_list
+        # Do not change how the device stores the name of an edited scene
+        if stored_name := self._stored_scene_names[new_effect["id"]]:
+            new_effect["scene_name"] = stored_name
 
         return await self.call("edit_dynamic_light_effect_rule", new_effect)
 
-- 
2.43.0


From 1cf9f4040a35bef044c25bd0309969fe08773fd3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 03:03:23 +0000
Subject: [PATCH 51/80] fix: read session cookies from the device's own
 response

With a shared http_client another device's request cleared or replaced
the cookie jar while the response body was still being read.
---
 kasa/httpclient.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index fa35b49..22b523b 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -6,6 +6,7 @@ import asyncio
 import logging
 import ssl
 import time
+from http.cookies import SimpleCookie
 from typing import Any
 
 import aiohttp
@@ -38,8 +39,7 @@ class HttpClient:
     def __init__(self, config: DeviceConfig) -> None:
         self._config = config
         self._client_session: aiohttp.ClientSession | None = None
-        self._jar = aiohttp.CookieJar(unsafe=True, quote_cookie=False)
-        self._last_url = URL(f"http://{self._config.host}/")
+        self._cookies: SimpleCookie | None = None
 
         self._wait_between_requests = 0.0
         self._last_request_time = 0.0
@@ -87,7 +87,7 @@ class HttpClient:
 
         _LOGGER.debug("Posting to %s", url)
         response_data = None
-        self._last_url = url
+        self._cookies = None
         self.client.cookie_jar.clear()
         return_json = bool(json)
         if self._config.timeout is None:
@@ -113,6 +113,8 @@ class HttpClient:
                 ssl=ssl,
             )
             async with resp:
+                # The cookie jar may be shared with other devices.
+                self._cookies = getattr(resp, "cookies", None)
                 response_data = await resp.read()
 
             if resp.status == 200:
@@ -162,10 +164,8 @@ class HttpClient:
         return resp.status, response_data
 
     def get_cookie(self, cookie_name: str) -> str | None:
-        """Return the cookie with cookie_name."""
-        if cookie := self.client.cookie_jar.filter_cookies(self._last_url).get(
-            cookie_name
-        ):
+        """Return the cookie with cookie_name set by the last response."""
+        if self._cookies and (cookie := self._cookies.get(cookie_name)):
             return cookie.value
         return None
 
-- 
2.43.0


From 2385df1b2102059ca706e928a054eb8a93cf1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 52/80] fix: print results that are not strings when rich is
 not installed

---
 kasa/cli/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/common.py b/kasa/cli/common.py
index d0ef9dc..dae9b08 100644
--- a/kasa/cli/common.py
+++ b/kasa/cli/common.py
@@ -42,7 +42,7 @@ except ImportError:
         @wraps(echo_func)
         def wrapper(message=None, *args, **kwargs) -> None:
             if message is not None:
-                message = rich_formatting.sub("", message)
+                message = rich_formatting.sub("", str(message))
             echo_func(message, *args, **kwargs)
 
         return wrapper
-- 
2.43.0


From 3785ac95ff8eca0eaa6a5466aaca1f28850eee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 53/80] fix: keep text out of the json output of vacuum
 commands

---
 kasa/cli/vacuum.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kasa/cli/vacuum.py b/kasa/cli/vacuum.py
index d0ccc55..2e6edb2 100644
--- a/kasa/cli/vacuum.py
+++ b/kasa/cli/vacuum.py
@@ -10,6 +10,7 @@ from kasa import (
 )
 
 from .common import (
+    echo,
     error,
     pass_dev_or_child,
 )
@@ -30,12 +31,12 @@ async def records_group(dev: Device) -> None:
 
     data = rec.parsed_data
     latest = data.last_clean
-    click.echo(
+    echo(
         f"Totals: {rec.total_clean_area} {rec.area_unit} in {rec.total_clean_time} "
         f"(cleaned {rec.total_clean_count} times)"
     )
-    click.echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
-    click.echo("Execute `kasa vacuum records list` to list all records.")
+    echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
+    echo("Execute `kasa vacuum records list` to list all records.")
 
 
 @records_group.command(name="list")
@@ -47,7 +48,7 @@ async def records_list(dev: Device) -> None:
 
     data = rec.parsed_data
     for record in data.records:
-        click.echo(
+        echo(
             f"* {record.timestamp}: cleaned {record.clean_area} {rec.area_unit}"
             f" in {record.clean_time}"
         )
@@ -63,7 +64,7 @@ async def consumables(ctx: click.Context, dev: Device) -> None:
 
     if not ctx.invoked_subcommand:
         for c in cons.consumables.values():
-            click.echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
+            echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
 
 
 @consumables.command(name="reset")
@@ -81,4 +82,4 @@ async def reset_consumable(dev: Device, consumable_id: str) -> None:
 
     await cons.reset_consumable(consumable_id)
 
-    click.echo(f"Consumable {consumable_id} reset")
+    echo(f"Consumable {consumable_id} reset")
-- 
2.43.0


From a8aad671f21d7aa9bf4587f8df9da7351c976e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 54/80] fix: schedule list succeeds when there are rules

---
 kasa/cli/schedule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..aebf5f2 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -24,11 +24,12 @@ async def schedule(dev) -> None:
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
-    for rule in sched.rules:
-        print(rule)
-    else:
+    if not sched.rules:
         error(f"No rules of type {type}")
 
+    for rule in sched.rules:
+        echo(rule)
+
     return sched.rules
 
 
-- 
2.43.0


From 214f80e6b9d5da879e73e1d3df792d62e479e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 55/80] fix: presets modify accepts a temperature and refuses
 negative indices

---
 kasa/cli/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..befcce5 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -159,7 +159,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         return
 
     max_index = len(light_preset.preset_states_list) - 1
-    if index > len(light_preset.preset_states_list) - 1:
+    if index < 0 or index > max_index:
         error(f"Invalid index, must be between 0 and {max_index}")
         return
 
@@ -179,7 +179,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         preset.hue = hue
     if saturation is not None and preset.saturation is not None:
         preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
+    if temperature is not None and preset.color_temp is not None:
         preset.color_temp = temperature
 
     echo(f"Updating preset {preset_name} to: {preset}")
-- 
2.43.0


From 581faa83bbfe381154d2433a33450e01541df0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 56/80] fix: turn-on-behavior accepts preset 0 and fails
 without --type

---
 kasa/cli/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index befcce5..4ebf738 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -201,12 +201,12 @@ async def turn_on_behavior(dev: Device, type, last, preset):
     echo(f"Current turn on behavior: {settings}")
 
     # Return if we are not setting the value
-    if not type and not last and not preset:
+    if not type and not last and preset is None:
         return settings
 
     # If we are setting the value, the type has to be specified
-    if (last or preset) and type is None:
-        echo("To set the behavior, you need to define --type")
+    if type is None:
+        error("To set the behavior, you need to define --type")
         return
 
     behavior = getattr(settings, type)
-- 
2.43.0


From 7262e785c0e2e7e2e507bba9c8cc409df470012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 57/80] fix: do not ask to confirm an exactly matching timezone

---
 kasa/cli/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index e2cb4c1..bb42c2f 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -145,6 +145,8 @@ async def _get_timezone(dev, timezone, skip_confirm) -> zoneinfo.ZoneInfo:
         if not matches:
             error(f"Device cannot support {timezone} timezone.")
         first = matches[0]
+        if first == timezone:
+            return tzinfo
         msg = (
             f"An exact match for {timezone} could not be found, "
             + f"timezone will be set to {first}"
-- 
2.43.0


From d8c82a1101b939f3970f4f653fd1f24ad46555e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 58/80] fix: fail time commands for devices without time module

---
 kasa/cli/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index bb42c2f..b019449 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -58,7 +58,7 @@ async def time_get(dev: Device):
 async def time_sync(dev: Device, timezone: str | None, skip_confirm: bool):
     """Set the device time to current time."""
     if (time := dev.modules.get(Module.Time)) is None:
-        echo("Device does not have time module")
+        error("Device does not have time module")
         return
 
     now = datetime.now()
@@ -117,7 +117,7 @@ async def time_set(
 ):
     """Set the device time to the provided time."""
     if (time := dev.modules.get(Module.Time)) is None:
-        echo("Device does not have time module")
+        error("Device does not have time module")
         return
 
     tzinfo: zoneinfo.ZoneInfo | None = None
-- 
2.43.0


From 3fbeb02d94a89d9e18af3343ce60213daabbbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 59/80] fix: disconnect the device when the first update fails
 in cli

---
 kasa/cli/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 4f1eccd..eacc49d 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -364,11 +364,6 @@ async def cli(
         dev = discovered[host]
         device_discovered = True
 
-    # Skip update on specific commands, or if device factory,
-    # that performs an update was used for the device.
-    if ctx.invoked_subcommand not in SKIP_UPDATE_COMMANDS and not device_updated:
-        await dev.update()
-
     @asynccontextmanager
     async def async_wrapped_device(device: Device):
         try:
@@ -378,6 +373,11 @@ async def cli(
 
     ctx.obj = await ctx.with_async_resource(async_wrapped_device(dev))
 
+    # Skip update on specific commands, or if device factory,
+    # that performs an update was used for the device.
+    if ctx.invoked_subcommand not in SKIP_UPDATE_COMMANDS and not device_updated:
+        await dev.update()
+
     # discover command has already invoked state
     if ctx.invoked_subcommand is None and not device_discovered:
         from .device import state
-- 
2.43.0


From 18d87d90d558465dad5aacce5f78feca585e165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 60/80] fix: fail when no device has the given alias

---
 kasa/cli/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index eacc49d..585576f 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -351,8 +351,7 @@ async def cli(
             alias=alias, target=target, credentials=credentials
         )
         if not dev:
-            echo(f"No device with name {alias} found")
-            return
+            error(f"No device with name {alias} found")
         echo(f"Found hostname by alias: {dev.host}")
         device_updated = True
     else:  # host will be set
-- 
2.43.0


From cce7b7003d24d6078e275b194e098a97c8bd80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 61/80] fix: do not hang when discovery by alias fails

---
 kasa/cli/discover.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..254dcd1 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -369,17 +369,21 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(1, attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    discover_task = asyncio.create_task(do_discover())
     await found_event.wait()
+    if discover_task.done():
+        await discover_task  # Raise if the discovery failed
     return found_device[0] if found_device else None
-- 
2.43.0


From 5a87078f44e8a579bff9443e23dcfcc87dcfb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 62/80] fix: fail logs for devices without logs and keep them
 out of json output

---
 kasa/cli/device.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kasa/cli/device.py b/kasa/cli/device.py
index 7610a7c..4f5c5eb 100644
--- a/kasa/cli/device.py
+++ b/kasa/cli/device.py
@@ -208,7 +208,9 @@ async def update_credentials(dev, username, password):
 @pass_dev_or_child
 async def child_logs(dev):
     """Print child device trigger logs."""
-    if logs := dev.modules.get(Module.TriggerLogs):
-        await dev.update(update_children=True)
-        for entry in logs.logs:
-            print(entry)
+    if not (logs := dev.modules.get(Module.TriggerLogs)):
+        error("Device does not support trigger logs.")
+
+    await dev.update(update_children=True)
+    for entry in logs.logs:
+        echo(entry)
-- 
2.43.0


From 10296fbf7e270e27ab455a3b60d457e3a05b3315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 63/80] fix: return the usage summary as json

---
 kasa/cli/usage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/cli/usage.py b/kasa/cli/usage.py
index c383f76..8de3601 100644
--- a/kasa/cli/usage.py
+++ b/kasa/cli/usage.py
@@ -104,7 +104,10 @@ async def usage(dev: Device, year, month, erase):
         echo(f"Today: {usage.usage_today} minutes")
         echo(f"This month: {usage.usage_this_month} minutes")
 
-        return usage
+        return {
+            "usage_today": usage.usage_today,
+            "usage_this_month": usage.usage_this_month,
+        }
 
     # output any detailed usage data
     for index, usage in usage_data.items():
-- 
2.43.0


From 58f7b30c7660e92777cfb2f5b30c56f9333f14fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:18 +0000
Subject: [PATCH 64/80] fix: keep the child options of schedule and
 turn-on-behavior commands

---
 kasa/cli/light.py    | 2 +-
 kasa/cli/schedule.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index 4ebf738..d822d15 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -188,10 +188,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index aebf5f2..302acb7 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,8 +19,8 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
@@ -34,8 +34,8 @@ async def _schedule_list(dev, type):
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From ed00f7f985dae04cd596a60760d63e76bbc5238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:18 +0000
Subject: [PATCH 65/80] fix: return the time as json from the plain time
 command

---
 kasa/cli/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index b019449..89393bc 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -23,10 +23,10 @@ from .common import (
 
 @click.group(invoke_without_command=True)
 @click.pass_context
-async def time(ctx: click.Context) -> None:
+async def time(ctx: click.Context) -> datetime | None:
     """Get and set time."""
     if ctx.invoked_subcommand is None:
-        await ctx.invoke(time_get)
+        return await ctx.invoke(time_get)
 
 
 @time.command(name="get")
-- 
2.43.0


From 6db1f8ba91e2c64140fc00684e620cc172952efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:47 +0000
Subject: [PATCH 66/80] fix: ask to confirm inexact timezones when syncing the
 time

---
 kasa/cli/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index 89393bc..d6c949b 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -48,7 +48,7 @@ async def time_get(dev: Device):
 )
 @click.option(
     "--skip-confirm",
-    type=str,
+    type=bool,
     required=False,
     default=False,
     is_flag=True,
-- 
2.43.0


From f8d7b0172c923dbf0cd249529f0ed001f0f97c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:11 +0000
Subject: [PATCH 67/80] fix: show the help of cli commands that need a device

---
 kasa/cli/common.py   | 4 ++++
 kasa/cli/hub.py      | 7 ++++++-
 kasa/cli/schedule.py | 4 +---
 kasa/cli/wifi.py     | 3 +--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kasa/cli/common.py b/kasa/cli/common.py
index dae9b08..2e6d5a4 100644
--- a/kasa/cli/common.py
+++ b/kasa/cli/common.py
@@ -155,6 +155,10 @@ def pass_dev_or_child(wrapped_function: Callable) -> Callable:
         help=child_index_help,
     )
     async def wrapper(ctx: click.Context, dev, *args, child, child_index, **kwargs):
+        # no device is available if we are just displaying the help
+        if "--help" in sys.argv:
+            return None
+
         if child := await _get_child_device(dev, child, child_index, ctx.info_name):
             ctx.obj = ctx.with_resource(patched_device_update(dev, child))
             dev = child
diff --git a/kasa/cli/hub.py b/kasa/cli/hub.py
index de4b607..684e933 100644
--- a/kasa/cli/hub.py
+++ b/kasa/cli/hub.py
@@ -1,6 +1,7 @@
 """Hub-specific commands."""
 
 import asyncio
+import sys
 
 import asyncclick as click
 
@@ -20,9 +21,13 @@ def pretty_category(cat: str):
 
 
 @click.group()
-@pass_dev
+@click.pass_obj
 async def hub(dev: SmartDevice):
     """Commands controlling hub child device pairing."""
+    # no device is available if we are just displaying the help
+    if "--help" in sys.argv:
+        return
+
     if dev.device_type is not DeviceType.Hub:
         error(f"{dev} is not a hub.")
 
diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 302acb7..6ddf3f8 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -7,14 +7,12 @@ import asyncclick as click
 from .common import (
     echo,
     error,
-    pass_dev,
     pass_dev_or_child,
 )
 
 
 @click.group()
-@pass_dev
-async def schedule(dev) -> None:
+async def schedule() -> None:
     """Scheduling commands."""
 
 
diff --git a/kasa/cli/wifi.py b/kasa/cli/wifi.py
index 924e83f..d2d2326 100644
--- a/kasa/cli/wifi.py
+++ b/kasa/cli/wifi.py
@@ -15,8 +15,7 @@ from .common import (
 
 
 @click.group()
-@pass_dev
-def wifi(dev) -> None:
+def wifi() -> None:
     """Commands to control wifi settings."""
 
 
-- 
2.43.0


From e5c9c616e4286cfabf277e41629b8fe23b447554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:47 +0000
Subject: [PATCH 68/80] fix: show the other devices when one fails in discover
 detail

---
 kasa/cli/discover.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index 254dcd1..73d7743 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -94,6 +94,13 @@ async def detail(ctx: click.Context) -> DeviceDict:
                 echo("== Authentication failed for device ==")
                 _echo_discovery_info(dev._discovery_info)
                 echo()
+            except Exception as ex:
+                # A failing device must not keep the others from being shown
+                if ctx.find_root().params["host"]:
+                    raise
+                echo(f"== Error querying device {dev.host} ==")
+                echo(f"\t{ex}")
+                echo()
             else:
                 ctx.parent.obj = dev
                 await ctx.parent.invoke(state)
-- 
2.43.0


From 1b367d4cf7a654c074a37220311b091f750a5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:47 +0000
Subject: [PATCH 69/80] fix: disconnect the device when showing it fails after
 discovery

---
 kasa/cli/discover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index 73d7743..3ad51f2 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -225,7 +225,11 @@ async def _discover(
         )
         if dev:
             if print_discovered:
-                await print_discovered(dev)
+                try:
+                    await print_discovered(dev)
+                except BaseException:
+                    await dev.disconnect()
+                    raise
             return {host: dev}
         else:
             return {}
-- 
2.43.0


From 1568c8249406e711da19bfed042c1bbd810e08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 70/80] fix: wifi networks with undecodable names or without
 details broke wifi_scan and ssid

---
 kasa/smart/smartdevice.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index d8c1e4a..cddb8ff 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -720,7 +720,7 @@ class SmartDevice(Device):
     def ssid(self) -> str:
         """Return ssid of the connected wifi ap."""
         ssid = self._info.get("ssid")
-        ssid = base64.b64decode(ssid).decode() if ssid else "No SSID"
+        ssid = base64.b64decode(ssid).decode(errors="replace") if ssid else "No SSID"
         return ssid
 
     @property
@@ -761,12 +761,13 @@ class SmartDevice(Device):
 
         def _net_for_scan_info(res: dict) -> WifiNetwork:
             return WifiNetwork(
-                ssid=base64.b64decode(res["ssid"]).decode(),
-                cipher_type=res["cipher_type"],
+                # The name of a network can be any sequence of bytes
+                ssid=base64.b64decode(res["ssid"]).decode(errors="replace"),
+                cipher_type=res.get("cipher_type"),
                 key_type=res["key_type"],
-                channel=res["channel"],
+                channel=res.get("channel"),
                 signal_level=res["signal_level"],
-                bssid=res["bssid"],
+                bssid=res.get("bssid"),
             )
 
         _LOGGER.debug("Querying networks")
-- 
2.43.0


From b0da488422d808e80502ead79412f5931be5ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 71/80] fix: raise a KasaException when the time for wifi_join
 and update_credentials is unknown

---
 kasa/smart/smartdevice.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index cddb8ff..aa2a355 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -778,6 +778,13 @@ class SmartDevice(Device):
         ]
         return networks
 
+    def _get_time_data(self) -> dict:
+        """Return the time last read from the device."""
+        time_data = (self.internal_state or {}).get("get_device_time")
+        if not isinstance(time_data, dict):
+            raise KasaException("The time of the device is not available")
+        return time_data
+
     async def wifi_join(
         self, ssid: str, password: str, keytype: str = "wpa2_psk"
     ) -> dict:
@@ -806,7 +813,7 @@ class SmartDevice(Device):
                 "password": base64.b64encode(password.encode()).decode(),
                 "ssid": base64.b64encode(ssid.encode()).decode(),
             },
-            "time": self.internal_state["get_device_time"],
+            "time": self._get_time_data(),
         }
 
         # The device does not respond to the request but changes the settings
@@ -827,7 +834,7 @@ class SmartDevice(Device):
 
         This will replace the existing authentication credentials on the device.
         """
-        time_data = self.internal_state["get_device_time"]
+        time_data = self._get_time_data()
         payload = {
             "account": {
                 "username": base64.b64encode(username.encode()).decode(),
-- 
2.43.0


From ede105032bc17f362090f5e0c8200a32ce76bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 72/80] fix: a space in the camera credentials was written as +
 into the rtsp url

---
 kasa/smartcam/modules/camera.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smartcam/modules/camera.py b/kasa/smartcam/modules/camera.py
index bd4b280..e86bc7e 100644
--- a/kasa/smartcam/modules/camera.py
+++ b/kasa/smartcam/modules/camera.py
@@ -6,7 +6,7 @@ import base64
 import logging
 from enum import StrEnum
 from typing import Annotated
-from urllib.parse import quote_plus
+from urllib.parse import quote
 
 from ...credentials import Credentials
 from ...feature import Feature
@@ -116,8 +116,8 @@ class Camera(SmartCamModule):
         if not credentials or not credentials.username or not credentials.password:
             return None
 
-        username = quote_plus(credentials.username)
-        password = quote_plus(credentials.password)
+        username = quote(credentials.username, safe="")
+        password = quote(credentials.password, safe="")
 
         return f"rtsp://{username}:{password}@{self._device.host}:{LOCAL_STREAMING_PORT}/{stream}"
 
-- 
2.43.0


From 5f201cd543a4d9d680c692ed258fd2496186885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 73/80] fix: the cloud commands of IOT devices were never sent

---
 kasa/iot/modules/cloud.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kasa/iot/modules/cloud.py b/kasa/iot/modules/cloud.py
index d4e91a0..5d90928 100644
--- a/kasa/iot/modules/cloud.py
+++ b/kasa/iot/modules/cloud.py
@@ -58,20 +58,20 @@ class Cloud(IotModule):
         """Return information about the cloud connectivity."""
         return CloudInfo.from_dict(self.data["get_info"])
 
-    def get_available_firmwares(self) -> dict:
+    async def get_available_firmwares(self) -> dict:
         """Return list of available firmwares."""
-        return self.query_for_command("get_intl_fw_list")
+        return await self.call("get_intl_fw_list")
 
-    def set_server(self, url: str) -> dict:
+    async def set_server(self, url: str) -> dict:
         """Set the update server URL."""
-        return self.query_for_command("set_server_url", {"server": url})
+        return await self.call("set_server_url", {"server": url})
 
-    def connect(self, username: str, password: str) -> dict:
+    async def connect(self, username: str, password: str) -> dict:
         """Login to the cloud using given information."""
-        return self.query_for_command(
+        return await self.call(
             "bind", {"username": username, "password": password}
         )
 
-    def disconnect(self) -> dict:
+    async def disconnect(self) -> dict:
         """Disconnect from the cloud."""
-        return self.query_for_command("unbind")
+        return await self.call("unbind")
-- 
2.43.0


From 37949b8cff9e6c9602f2806a2dca6a8b20342b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 74/80] fix: factory_reset of camera hub children failed

---
 kasa/smart/smartdevice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index aa2a355..6a563b7 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -863,7 +863,7 @@ class SmartDevice(Device):
 
         Note, this does not downgrade the firmware.
         """
-        await self.protocol.query("device_reset")
+        await self.protocol.query({"device_reset": None})
 
     @property
     def device_type(self) -> DeviceType:
-- 
2.43.0


From bac647adebf19cac7b7c27456843d7c42815f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:18 +0000
Subject: [PATCH 75/80] fix: deprecation warnings of light attributes pointed
 into kasa instead of at the caller

---
 kasa/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/device.py b/kasa/device.py
index c4ea41e..01be18c 100644
--- a/kasa/device.py
+++ b/kasa/device.py
@@ -568,7 +568,7 @@ class Device(ABC):
         if mod_call_msg := vals.get(name):
             mod, call, msg = mod_call_msg
             msg = f"{name} is deprecated, use: {msg} instead"
-            warn(msg, DeprecationWarning, stacklevel=2)
+            warn(msg, DeprecationWarning, stacklevel=3)
             if (module := self.modules.get(mod)) is None:
                 raise AttributeError(f"Device has no attribute {name!r}")
             return call(module)
-- 
2.43.0


From d427ab407318f37ec111126c6fc31521b6d13afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:18 +0000
Subject: [PATCH 76/80] fix: from kasa import * failed as __all__ named missing
 classes

---
 kasa/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/kasa/__init__.py b/kasa/__init__.py
index b8871f9..2b79423 100755
--- a/kasa/__init__.py
+++ b/kasa/__init__.py
@@ -54,8 +54,6 @@ __all__ = [
     "SmartProtocol",
     "SmartCamProtocol",
     "LightState",
-    "TurnOnBehaviors",
-    "TurnOnBehavior",
     "DeviceType",
     "Feature",
     "EmeterStatus",
@@ -63,7 +61,6 @@ __all__ = [
     "Light",
     "ColorTempRange",
     "HSV",
-    "Plug",
     "Module",
     "KasaException",
     "AuthenticationError",
-- 
2.43.0


From ea5a270f0d5dec47bea2efb3ebfecc384c8d2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:28 +0000
Subject: [PATCH 77/80] fix: dump_devinfo left children of the parent's model
 unredacted in fixtures

---
 devtools/dump_devinfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index bbe1e81..43758bd 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -1057,7 +1057,9 @@ async def get_smart_fixtures(
         # same model child device
         else:
             cd = final.setdefault("child_devices", {})
-            cd[scrubbed_child_id] = response
+            cd[scrubbed_child_id] = redact_data(
+                response, _wrap_redactors(SMART_REDACTORS)
+            )
 
     discovery_result = None
     if discovery_info:
-- 
2.43.0


From d3bc9cf332f748c193b1148df06cc554df299c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:28 +0000
Subject: [PATCH 78/80] fix: dump_devinfo failed for IOT devices which refuse
 the combined query

---
 devtools/dump_devinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index 43758bd..5c7f193 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -447,7 +447,7 @@ async def get_legacy_fixture(
     final: dict = defaultdict(defaultdict)
     for succ, resp in successes:
         final_query[succ.module][succ.method] = {}
-        final[succ.module][succ.method] = resp
+        final[succ.module].update(resp[succ.module])
 
     final = default_to_regular(final)
 
-- 
2.43.0


From 0563cd700def845c4d49b36e955367ff43b04826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:28 +0000
Subject: [PATCH 79/80] fix: dump_devinfo failed for hubs when a child or a
 child list query does not respond

---
 devtools/dump_devinfo.py | 49 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index 5c7f193..9206937 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -852,11 +852,26 @@ def scrub_child_device_ids(
     main_response: dict, child_responses: dict
 ) -> dict[str, str]:
     """Scrub all the child device ids in the responses."""
-    # Make the scrubbed id map
+    listed_children = [
+        child
+        for method, child_list in (
+            ("get_child_device_component_list", "child_component_list"),
+            ("get_child_device_list", "child_device_list"),
+            ("getChildDeviceComponentList", "child_component_list"),
+            ("getChildDeviceList", "child_device_list"),
+        )
+        for child in main_response.get(method, {}).get(child_list, [])
+    ]
+    # Make the scrubbed id map. Children that did not respond to any of the
+    # queries are only listed by the parent.
+    child_ids = [device_id for device_id in child_responses if device_id != ""]
+    for child in listed_children:
+        device_id = child.get("device_id") or child.get("dev_id")
+        if device_id and device_id not in child_ids:
+            child_ids.append(device_id)
     scrubbed_child_id_map = {
         device_id: f"SCRUBBED_CHILD_DEVICE_ID_{index + 1}"
-        for index, device_id in enumerate(child_responses.keys())
-        if device_id != ""
+        for index, device_id in enumerate(child_ids)
     }
 
     for child_id, response in child_responses.items():
@@ -878,27 +893,13 @@ def scrub_child_device_ids(
                 "Cannot find device id in child get device info: %s", child_id
             )
 
-    # Scrub the device ids in the parent for smart protocol
-    if gc := main_response.get("get_child_device_component_list"):
-        for child in gc["child_component_list"]:
-            device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
-        for child in main_response["get_child_device_list"]["child_device_list"]:
-            device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
-
-    # Scrub the device ids in the parent for the smart camera protocol
-    if gc := main_response.get("getChildDeviceComponentList"):
-        for child in gc["child_component_list"]:
-            device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
-        for child in main_response["getChildDeviceList"]["child_device_list"]:
-            if device_id := child.get("device_id"):
-                child["device_id"] = scrubbed_child_id_map[device_id]
-                continue
-            elif dev_id := child.get("dev_id"):
-                child["dev_id"] = scrubbed_child_id_map[dev_id]
-                continue
+    # Scrub the device ids in the parent, for the smart and smart camera protocols
+    for child in listed_children:
+        for key in ("device_id", "dev_id"):
+            if device_id := child.get(key):
+                child[key] = scrubbed_child_id_map[device_id]
+                break
+        else:
             _LOGGER.error("Could not find a device id for the child device: %s", child)
 
     return scrubbed_child_id_map
-- 
2.43.0


From cc8f58f435e291fa8e0877a872dfca62c3620e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:43 +0000
Subject: [PATCH 80/80] fix: camera alarms accepted an empty alarm sound and
 sent an empty setting

---
 kasa/smartcam/modules/alarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smartcam/modules/alarm.py b/kasa/smartcam/modules/alarm.py
index df1891e..2277eae 100644
--- a/kasa/smartcam/modules/alarm.py
+++ b/kasa/smartcam/modules/alarm.py
@@ -191,7 +191,7 @@ class Alarm(SmartCamModule, AlarmInterface):
         volume: int | None = None,
         sound: str | None = None,
     ) -> dict:
-        if sound and sound not in self.alarm_sounds:
+        if sound is not None and sound not in self.alarm_sounds:
             raise ValueError(
                 f"sound must be one of {', '.join(self.alarm_sounds)}: {sound}"
             )
@@ -206,7 +206,7 @@ class Alarm(SmartCamModule, AlarmInterface):
             raise ValueError(f"volume must be between {VOLUME_MIN} and {VOLUME_MAX}")
 
         config: dict[str, str | int] = {}
-        if sound:
+        if sound is not None:
             config["siren_type"] = sound
         if duration is not None:
             config["duration"] = duration
-- 
2.43.0

