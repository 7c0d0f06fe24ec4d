From e034fd8e1773353427c4d282a855188bf0fd9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 01/39] fix: removing a session leaves no reference record and
 spares other sessions' bindings

---
 src/oidcrp/state_interface.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..a955c02 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -382,7 +382,14 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+        _ref = "ref{}ref".format(state)
+        _val = self._db.get(_ref)
+        if _val is None:  # nothing was ever bound to this state
+            return
+
+        del self._db[_ref]
+        for xtyp, _val in json.loads(_val).items():
+            _key = KEY_PATTERN[xtyp].format(_val)
+            # The value may by now be bound to another state
+            if self._db.get(_key) == state:
+                del self._db[_key]
-- 
2.43.0


From 3d8ae219ada2ca43c97ad94233f5ad29f40404e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 02/39] fix: removing a session removes all values bound to it,
 not only the latest of each kind

---
 src/oidcrp/state_interface.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index a955c02..ee38870 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -31,6 +31,11 @@ KEY_PATTERN = {
 }
 
 
+def _as_list(values):
+    """Earlier versions stored one single value."""
+    return [values] if isinstance(values, str) else values
+
+
 class InMemoryStateDataBase:
     """The simplest possible implementation of the state database."""
 
@@ -249,10 +254,15 @@ class StateInterface(ImpExp):
             _val = None
 
         if _val is None:
-            refs = {xtyp: value}
+            refs = {}
         else:
             refs = json.loads(_val)
-            refs[xtyp] = value
+
+        # A state can have more than one value of a type bound to it
+        _values = _as_list(refs.get(xtyp, []))
+        if value not in _values:
+            _values.append(value)
+        refs[xtyp] = _values
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
@@ -388,8 +398,9 @@ class StateInterface(ImpExp):
             return
 
         del self._db[_ref]
-        for xtyp, _val in json.loads(_val).items():
-            _key = KEY_PATTERN[xtyp].format(_val)
-            # The value may by now be bound to another state
-            if self._db.get(_key) == state:
-                del self._db[_key]
+        for xtyp, _values in json.loads(_val).items():
+            for _value in _as_list(_values):
+                _key = KEY_PATTERN[xtyp].format(_value)
+                # The value may by now be bound to another state
+                if self._db.get(_key) == state:
+                    del self._db[_key]
-- 
2.43.0


From 6b74027b2bb45bf9d3289ec7ade1de972e6d56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 03/39] fix: finishing a login at a plain OAuth2 server without
 user info doesn't fail

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..0b7b98d 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -809,7 +809,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:  # A plain OAuth2 AS doesn't have to tell who the user is
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From 1df59b12e8c2bcd2b3cba2595fed961e913dca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 04/39] fix: a response whose verification fails is refused

---
 src/oidcrp/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..04916de 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -7,6 +7,7 @@ from urllib.parse import urlparse
 
 from cryptojwt.jwt import JWT
 from cryptojwt.utils import qualified_name
+from oidcmsg.exception import VerificationError
 from oidcmsg.impexp import ImpExp
 from oidcmsg.item import DLDict
 from oidcmsg.message import Message
@@ -563,7 +564,8 @@ class Service(ImpExp):
             LOGGER.debug("Verify response with %s", vargs)
             try:
                 # verify the message. If something is wrong an exception is thrown
-                resp.verify(**vargs)
+                if resp.verify(**vargs) is False:
+                    raise VerificationError('Response verification failed')
             except Exception as err:
                 LOGGER.error(
                     'Got exception while verifying response: %s', err)
-- 
2.43.0


From 97fc8188dc8b3fd7274a703af9e5aed52d44044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 05/39] fix: user info can be fetched with the access token of
 the session

---
 src/oidcrp/rp_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 0b7b98d..f7703cd 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -594,6 +594,7 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            access_token = _arg['access_token']
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From 09d6c658200050d7ed909b61b75983b561240b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 06/39] fix: refreshing an access token keeps the refresh token
 and ID Token that were not replaced

---
 .../cc_refresh_access_token.py                |  3 ++-
 src/oidcrp/oauth2/refresh_access_token.py     | 24 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..220c2bb 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -2,6 +2,7 @@ from oidcmsg import oauth2
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
+from oidcrp.oauth2.refresh_access_token import store_refreshed_tokens
 from oidcrp.service import Service
 
 
@@ -52,4 +53,4 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        store_refreshed_tokens(self.client_get("service_context").state, resp, key)
diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..3c10cf4 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -2,7 +2,9 @@
 import logging
 
 from oidcmsg import oauth2
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
+from oidcmsg.oidc import verified_claim_name
 from oidcmsg.time_util import time_sans_frac
 
 from oidcrp.oauth2.utils import get_state_parameter
@@ -11,6 +13,25 @@ from oidcrp.service import Service
 LOGGER = logging.getLogger(__name__)
 
 
+def store_refreshed_tokens(state_interface, resp, key):
+    """
+    Store the response to a refresh request. The refresh token and the ID Token the server
+    didn't replace are still the ones to use.
+
+    :param state_interface: Where session information is stored
+    :param resp: The response from the server
+    :param key: Key to the session information
+    """
+    _item = resp.copy()
+    _kept = state_interface.extend_request_args(
+        {}, Message, 'token_response', key,
+        ['refresh_token', 'id_token', verified_claim_name('id_token')], orig=True)
+    for attr, val in _kept.items():
+        if attr not in _item:
+            _item[attr] = val
+    state_interface.store_item(_item, 'token_response', key)
+
+
 class RefreshAccessToken(Service):
     """The service that talks to the OAuth2 refresh access token endpoint."""
     msg_type = oauth2.RefreshAccessTokenRequest
@@ -30,7 +51,8 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        _state_interface = self.client_get("service_context").state
+        store_refreshed_tokens(_state_interface, resp, key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From 3f644dc66202f5f1dca99deaa6708c50b7261bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 07/39] fix: a signed client assertion uses an algorithm that
 fits the authentication method

The registration response need not repeat the algorithm, and a provider's list of
algorithms contains those of other methods too.
---
 src/oidcrp/client_auth.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..0b28426 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -395,6 +395,16 @@ class JWSAuthnMethod(ClientAuthnMethod):
             raise AuthnFailure("Missing algorithm specification")
         return algorithm
 
+    @staticmethod
+    def usable_algorithm(algorithm):
+        """
+        Whether a signing algorithm is one meant for this authentication method
+
+        :param algorithm: Signing algorithm
+        :return: True/False
+        """
+        return True
+
     @staticmethod
     def get_signing_key_from_keyjar(algorithm, service_context):
         """
@@ -456,8 +466,8 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
-            else:
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
+            if algorithm is None:
                 algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
                 if algorithm is None:
                     _pi = context.provider_info
@@ -466,7 +476,9 @@ class JWSAuthnMethod(ClientAuthnMethod):
                     except KeyError:
                         algorithm = "RS256"  # default
                     else:
-                        for alg in algs:  # pick the first one I support and have keys for
+                        # The list covers all methods, those that fit this one go first
+                        for alg in sorted(algs, key=lambda a: not self.usable_algorithm(a)):
+                            # pick the first one I support and have keys for
                             if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg,
                                                                                        context):
                                 algorithm = alg
@@ -564,6 +576,10 @@ class ClientSecretJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="client_secret_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def usable_algorithm(algorithm):
+        return algorithm.startswith("HS")
+
     def get_signing_key_from_keyjar(self, algorithm, service_context):
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
 
@@ -576,6 +592,10 @@ class PrivateKeyJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="private_key_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def usable_algorithm(algorithm):
+        return algorithm[:2] in ["RS", "ES", "PS"]
+
     def get_signing_key_from_keyjar(self, algorithm, service_context=None):
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), "", alg=algorithm)
 
-- 
2.43.0


From 39bbada0256d988ac207741717e2563f187dd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 08/39] fix: client_secret_jwt signs with the client's secret
 also when the handler has keys of its own

---
 src/oidcrp/client_auth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 0b28426..e8855ab 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -5,6 +5,7 @@ from urllib.parse import quote_plus
 
 from cryptojwt.exception import MissingKey
 from cryptojwt.exception import UnsupportedAlgorithm
+from cryptojwt.jwk.hmac import SYMKey
 from cryptojwt.jws.jws import SIGNER_ALGS
 from cryptojwt.jws.utils import alg2keytype
 from oidcmsg.message import VREQUIRED
@@ -581,6 +582,9 @@ class ClientSecretJWT(JWSAuthnMethod):
         return algorithm.startswith("HS")
 
     def get_signing_key_from_keyjar(self, algorithm, service_context):
+        if algorithm.startswith("HS") and service_context.client_secret:
+            # The present secret, the key jar may lack it or also have earlier ones
+            return [SYMKey(key=service_context.client_secret, use="sig")]
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
 
 
-- 
2.43.0


From 98e19f936374bf941736e5d25855436e173820e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 09/39] fix: HTTP Basic credentials are encoded with the
 standard base64 alphabet

---
 src/oidcrp/client_auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index e8855ab..ae28b63 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -119,7 +119,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From 442386a9200919f5b5580f0b3d909004082414df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 10/39] fix: allow.issuer_mismatch set to false doesn't allow
 an issuer mismatch

---
 src/oidcrp/oauth2/provider_info_discovery.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..1760f70 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,7 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        if not self.client_get("service_context").allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
-- 
2.43.0


From 8001e446850ed90e4e06b1587972c1357681bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 11/39] fix: a preference that is only a part of the default
 value isn't supported by the provider

---
 src/oidcrp/oidc/provider_info_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..c3ff610 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -122,7 +122,7 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                 try:
                     # If the provider have not specified use what the
                     # standard says is mandatory if at all.
-                    _pvals = PROVIDER_DEFAULT[_pref]
+                    _pvals = [PROVIDER_DEFAULT[_pref]]
                 except KeyError:
                     logger.info(
                         'No info from provider on {} and no default'.format(
-- 
2.43.0


From 3093037b2f76a61734cf9ba0ab8bd26dd1a25e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 12/39] fix: no redirect URI was registered for response type
 'code id_token'

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From eccfaf68c21ffebcabdcdcd2fe819343d1eac209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 13/39] fix: an answer with a client error status isn't a
 success, whatever its body

---
 src/oidcrp/oauth2/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..e37ff93 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -260,6 +260,10 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if 'error' not in err_resp:  # Whatever it is, it isn't a success
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From c04fd3b00ba6a10547f71548340d73b0abff9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 14/39] fix: a redirect from the user info endpoint isn't user
 info

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index f7703cd..4940a9a 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -602,6 +602,8 @@ class RPHandler(object):
                                  request_args=request_args, **kwargs)
         if is_error_message(resp):
             raise OidcServiceError(resp['error'])
+        if 'http_response' in resp:  # A redirect, this isn't user info
+            raise OidcServiceError('Unexpected redirect from the user info endpoint')
 
         return resp
 
-- 
2.43.0


From 5c6fca565f23eb19dd43dc793f863875bd9d840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 15/39] fix: claims sources can't say who the user is

---
 src/oidcrp/oidc/__init__.py | 3 ++-
 src/oidcrp/oidc/userinfo.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..10b5811 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -173,6 +173,7 @@ class RP(oauth2.Client):
 
                     # only add those I expected
                     for key in claims:
-                        userinfo[key] = _uinfo[key]
+                        if key != 'sub':  # Not for a claims source to say
+                            userinfo[key] = _uinfo[key]
 
         return userinfo
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..8b06bd4 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -96,7 +96,8 @@ class UserInfo(Service):
                                   src == csrc]
 
                         for key in claims:
-                            response[key] = aggregated_claims[key]
+                            if key != 'sub':  # Not for a claims source to say
+                                response[key] = aggregated_claims[key]
                 elif 'endpoint' in spec:
                     _info = {
                         "headers": self.get_authn_header(
-- 
2.43.0


From 2415dd1762b906149c3d039676eeb47b64192d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 16/39] fix: a back-channel logout of a session ends that
 session, not the user's latest

---
 src/oidcrp/rp_handler.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 4940a9a..f0c9d86 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -974,16 +974,19 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
-    # Find the subject through 'sid' or 'sub'
+    # Find the session through 'sid' or 'sub'. A user may have several sessions, so if the
+    # session is pointed out that is the one.
     sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    sid = req[verified_claim_name('logout_token')].get('sid')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
-    elif sid:
-        _state = _context.state.get_state_by_sid(sid)
-    return _state
+
+    if sid:
+        try:
+            return _context.state.get_state_by_sid(sid)
+        except KeyError:
+            if not sub:
+                raise
+
+    return _context.state.get_state_by_sub(sub)
-- 
2.43.0


From 826a3b3767a9ebb7579201a86810b90ce3ab1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 17/39] fix: logout without a logout service is reported as
 such

---
 src/oidcrp/rp_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index f0c9d86..c9bdcc6 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -907,9 +907,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From 9ac9b74e7c62b824fd4d4be0f9185a967eba621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 18/39] fix: a single configured post_logout_redirect_uri is
 used as a whole

---
 src/oidcrp/oidc/end_session.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/end_session.py b/src/oidcrp/oidc/end_session.py
index df4d2d4..7576665 100644
--- a/src/oidcrp/oidc/end_session.py
+++ b/src/oidcrp/oidc/end_session.py
@@ -56,15 +56,13 @@ class EndSession(Service):
         if 'post_logout_redirect_uri' not in request_args:
             _context = self.client_get("service_context")
             _uri = _context.register_args.get('post_logout_redirect_uris')
+            if not _uri:
+                _uri = _context.callback.get("post_logout_redirect_uris")
             if _uri:
                 if isinstance(_uri, str):
                     request_args['post_logout_redirect_uri'] = _uri
                 else:  # assume list
                     request_args['post_logout_redirect_uri'] = _uri[0]
-            else:
-                _uri = _context.callback.get("post_logout_redirect_uris")
-                if _uri:
-                    request_args['post_logout_redirect_uri'] = _uri[0]
 
         return request_args, {}
 
-- 
2.43.0


From 631ace2dd545ea3cdd1473a7ccb331064e023580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 19/39] fix: states, nonces and code verifiers come from the
 system's random number generator

---
 src/oidcrp/util.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..e9d81f8 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+import random
 import ssl
 import string
 import sys
@@ -18,18 +19,15 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
-
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
 from oidcrp.exception import OidcServiceError
 from oidcrp.exception import TimeFormatError
 from oidcrp.exception import WrongContentType
 
+# States, nonces and code verifiers must not be predictable
+rnd = random.SystemRandom()
+
 URL_ENCODED = 'application/x-www-form-urlencoded'
 JSON_ENCODED = "application/json"
 JOSE_ENCODED = "application/jose"
-- 
2.43.0


From 66e0d709f3ba55fe5dbc963cd26fae6994d02e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 20/39] fix: the default client configuration is not shared
 between the clients made from it

---
 src/oidcrp/rp_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c9bdcc6..5834a29 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -158,8 +159,12 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # The default configuration is shared by all clients that have none of their own.
+            _cnf = copy.deepcopy(self.pick_config(''))
             _cnf['issuer'] = issuer
+        else:
+            if not issuer:  # Don't know who the issuer is yet
+                _cnf = copy.deepcopy(_cnf)
 
         try:
             _services = _cnf['services']
-- 
2.43.0


From 988ef6b8ed498232a6aa8dc3de442206385a2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 21/39] fix: a provider found by WebFinger is one the user may
 already have a client for

---
 src/oidcrp/rp_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 5834a29..fd06f60 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -335,13 +335,16 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            iss_id = temporary_client.client_get("service_context").get('issuer')
+            if not iss_id:
+                raise OidcServiceError('No issuer found for the user')
         else:
             temporary_client = None
 
         try:
             client = self.issuer2rp[iss_id]
         except KeyError:
-            if temporary_client:
+            if temporary_client and iss_id not in self.client_configs:
                 client = temporary_client
             else:
                 logger.debug("Creating new client: %s", iss_id)
-- 
2.43.0


From 4b63b3d3d7791f942a0d8b56130a977341d46eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 22/39] fix: clients whose configurations share objects don't
 share what they learn

---
 src/oidcrp/service_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..b02f515 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -147,7 +147,8 @@ class ServiceContext(OidcContext):
         # Dynamic information
         for param in ['client_secret', 'client_id', 'redirect_uris', 'provider_info',
                       'behaviour', 'callback', 'issuer']:
-            _val = config.get(param, _def_value[param])
+            # Configurations may share objects, what one client learns is not for the others
+            _val = copy.deepcopy(config.get(param, _def_value[param]))
             self.set(param, _val)
             if param == 'client_secret' and _val:
                 self.keyjar.add_symmetric('', _val)
-- 
2.43.0


From bbb594e42ad32489b02dc5513b9a7e0bdcfd3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 23/39] fix: an ID Token about another user than that of the
 authorization response is refused

---
 src/oidcrp/oidc/access_token.py | 17 +++++++++++++++++
 src/oidcrp/rp_handler.py        |  5 +++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 8a2b215..e9bca37 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -16,6 +16,22 @@ __author__ = 'Roland Hedberg'
 LOGGER = logging.getLogger(__name__)
 
 
+def verify_same_user(state_interface, id_token, key):
+    """
+    All the ID Tokens of a session must be about one and the same user.
+
+    :param state_interface: Where session information is stored
+    :param id_token: The claims of a new ID Token
+    :param key: Key to the session information
+    """
+    for item_type in ['auth_response', 'token_response']:
+        _earlier = state_interface.extend_request_args({}, Message, item_type, key,
+                                                       [verified_claim_name('id_token')])
+        for _idt in _earlier.values():
+            if _idt['sub'] != id_token['sub']:
+                raise ParameterError('An ID Token about another user')
+
+
 class AccessToken(access_token.AccessToken):
     msg_type = oidc.AccessTokenRequest
     response_cls = oidc.AccessTokenResponse
@@ -80,6 +96,7 @@ class AccessToken(access_token.AccessToken):
             except KeyError:
                 raise ValueError('Invalid nonce value')
 
+            verify_same_user(_state_interface, _idt, key)
             _state_interface.store_sub2state(_idt['sub'], key)
 
         if 'expires_in' in resp:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index fd06f60..cb5cd95 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -731,7 +731,7 @@ class RPHandler(object):
                     # Now which access_token should I use
                     access_token = token_resp["access_token"]
                     # May or may not get an ID Token
-                    id_token = token_resp.get('__verified_id_token')
+                    id_token = token_resp.get('__verified_id_token', id_token)
 
         elif _resp_type in [{'code'}, {'code', 'id_token'}]:
             # get the access token
@@ -741,7 +741,8 @@ class RPHandler(object):
 
             access_token = token_resp["access_token"]
             # May or may not get an ID Token
-            id_token = token_resp.get('__verified_id_token')
+            id_token = token_resp.get('__verified_id_token',
+                                      authorization_response.get('__verified_id_token'))
 
         return {'access_token': access_token, 'id_token': id_token}
 
-- 
2.43.0


From 08c220625f0d1d8ec3f820bd82b253a42d2b7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 24/39] fix: an ID Token that comes with a refresh is verified
 like the first one and is about the same user

---
 src/oidcrp/oidc/refresh_access_token.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..66309f1 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,10 @@
 from oidcmsg import oidc
+from oidcmsg.oidc import verified_claim_name
 
+from oidcrp.exception import ParameterError
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc.access_token import AccessToken
+from oidcrp.oidc.access_token import verify_same_user
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +12,24 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    # An ID Token returned by a refresh is verified the way the first one was
+    gather_verify_arguments = AccessToken.gather_verify_arguments
+
+    def update_service_context(self, resp, key='', **kwargs):
+        _idt = resp.get(verified_claim_name('id_token'))
+        if _idt:
+            _state_interface = self.client_get("service_context").state
+            verify_same_user(_state_interface, _idt, key)
+            if 'nonce' in _idt:
+                try:
+                    _state = _state_interface.get_state_by_nonce(_idt['nonce'])
+                except KeyError:
+                    raise ValueError('Invalid nonce value')
+                if _state != key:
+                    raise ParameterError('Someone has messed with "nonce"')
+
+        super().update_service_context(resp, key=key, **kwargs)
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From 5798b78818f9e4ec2367ca190f0147360712c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 25/39] fix: DPoP support doesn't get in the way at a provider
 that has none

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..f125007 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -102,7 +102,7 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
-- 
2.43.0


From a657a397896f7abb3dfb4cc39fc017093a37b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 26/39] fix: a DPoP proof comes with a request to refresh a
 token too

---
 src/oidcrp/oauth2/add_on/dpop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index f125007..82e2e6d 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -159,6 +159,11 @@ def add_support(services, signing_algorithms):
     }
     _service.construct_extra_headers.append(dpop_header)
 
+    # So should a request for a new access token
+    _refresh_service = services.get("refresh_token")
+    if _refresh_service:
+        _refresh_service.construct_extra_headers.append(dpop_header)
+
     # The same for userinfo requests
     _userinfo_service = services.get("userinfo")
     if _userinfo_service:
-- 
2.43.0


From 98146423a5703873acde5cc4b6d312df979e6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 27/39] fix: a provider can't have request objects written
 outside of where the RP runs

---
 src/oidcrp/service_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index b02f515..948e6fa 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -213,7 +213,11 @@ class ServiceContext(OidcContext):
 
         _name = webname[len(self.base_url):]
         if _name.startswith('/'):
-            return _name[1:]
+            _name = _name[1:]
+
+        # Stay below the directory from which the RP instance is run
+        if _name.startswith('/') or '..' in _name.split('/'):
+            raise ValueError("Webname points outside of base_url")
 
         return _name
 
-- 
2.43.0


From a38097a775af93da8681fe1b9cd53e7ec8a173de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 28/39] fix: pushed authorization requests are signed by the
 client, with the configured algorithm

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..5be3022 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -22,8 +22,10 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(request_args.to_dict())
+        _jwt = JWT(key_jar=_context.keyjar, iss=_context.client_id,
+                   sign_alg=method_args["signing_algorithm"])
+        _jws = _jwt.pack(request_args.to_dict(),
+                         recv=_context.provider_info.get("issuer", _context.issuer))
 
         _msg = Message(request=_jws)
         if method_args["merge_rule"] == "lax":
@@ -37,12 +39,15 @@ def push_authorization(request_args, service, **kwargs):
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
-    if resp.status_code == 200:
+    if resp.status_code in [200, 201]:
         _resp = Message().from_json(resp.text)
-        _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
         if method_args["merge_rule"] == "lax":
+            _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
             for param in request_args.required_parameters():
                 _req[param] = request_args.get(param)
+        else:
+            _req = Message(request_uri=_resp["request_uri"],
+                           client_id=request_args["client_id"])
         request_args = _req
 
     return request_args
-- 
2.43.0


From 72da7bbfd1d834a74f7252a16cd2a32060089f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 29/39] fix: an encrypted cookie that has been tampered with
 raises InvalidCookieSign

---
 src/oidcrp/cookie.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..af75349 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -7,6 +7,7 @@ import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
@@ -235,9 +236,10 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     elif len(parts) == 4:
         # encrypted and signed
         timestamp = parts[0]
-        iv = base64.b64decode(parts[1])
-        ciphertext = base64.b64decode(parts[2])
-        tag = base64.b64decode(parts[3])
+        try:
+            iv, ciphertext, tag = [base64.b64decode(part) for part in parts[1:]]
+        except ValueError:
+            raise InvalidCookieSign()
         ct = ciphertext + tag
 
         # Make sure the key is 32-Bytes long
@@ -249,7 +251,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except (JWEException, InvalidTag, ValueError):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
-- 
2.43.0


From 34690effd28993de6e2123f48ae2b18ea98655dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 30/39] fix: cookies are read the way they were made: loads
 with a separator, encrypted or not

---
 src/oidcrp/cookie.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index af75349..3eabd80 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -227,7 +227,15 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-    elif len(parts) == 3:
+
+    if not enc_key and len(parts) > 3:
+        # The load of a cookie that isn't encrypted may contain the separator
+        parts = ["|".join(parts[:-2])] + parts[-2:]
+
+    if len(parts) == 3:
+        if enc_key:
+            # Not created using that key
+            raise InvalidCookieSign()
         # verify the cookie signature
         cleartext, timestamp, sig = parts
         if not verify_cookie_signature(sig, seed, cleartext, timestamp):
@@ -388,7 +396,7 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
+                value, _ts, typ = info.rsplit("::", 2)
                 if timestamp == _ts:
                     return value, _ts, typ
         return None
-- 
2.43.0


From fe71b66336cbbe5796f1cf1c65f9c75f1db22b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 31/39] fix: a cookie seed may be any bytes, also when the
 cookie is read

---
 src/oidcrp/cookie.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 3eabd80..8dcc047 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -222,8 +222,6 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     if not kaka:
         return None
 
-    seed = as_unicode(seed)
-
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-- 
2.43.0


From e8c75e6b4e13fd9e0838f6421d98aee0e571228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 32/39] fix: a client credentials token got through do_request
 is kept where it's looked for

---
 src/oidcrp/oauth2/client_credentials/cc_access_token.py         | 2 +-
 src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
index 0bec1bb..b1bf397 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
@@ -24,4 +24,4 @@ class CCAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get('service_context').state.store_item(resp, 'token_response', key)
+        self.client_get('service_context').state.store_item(resp, 'token_response', key or 'cc')
diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 220c2bb..e51b177 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -53,4 +53,4 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        store_refreshed_tokens(self.client_get("service_context").state, resp, key)
+        store_refreshed_tokens(self.client_get("service_context").state, resp, key or 'cc')
-- 
2.43.0


From abf48e4fb35cb5ed5a1cb0d7f10dc07aa40079a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 33/39] fix: a refresh request needs a refresh token also after
 other requests have sent theirs in a header

---
 src/oidcrp/client_auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index ae28b63..3b0690d 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -261,7 +261,7 @@ def find_token(request, token_type, service, **kwargs):
         else:
             del request[token_type]
             # Required under certain circumstances :-) not under other
-            request.c_param[token_type] = SINGLE_OPTIONAL_STRING
+            request.c_param = dict(request.c_param, **{token_type: SINGLE_OPTIONAL_STRING})
             return _token
 
     try:
-- 
2.43.0


From ee2f572ecbd631a9f6d7fd54ef40c544b8d80919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 34/39] fix: a provider's keys are fetched with the configured
 HTTP parameters

---
 src/oidcrp/rp_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index cb5cd95..08a1a06 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -99,7 +99,9 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
+        if keyjar is None:  # Keys are fetched the way everything else is
+            self.keyjar.httpc_params = dict(self.keyjar.httpc_params or {}, **self.httpc_params)
+        elif not self.keyjar.httpc_params:
             self.keyjar.httpc_params = self.httpc_params
 
     def state2issuer(self, state):
-- 
2.43.0


From b5466fbcee4898543a341f6d6196904687bc5d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 35/39] fix: what the HTTP request callback returns is what is
 sent

---
 src/oidcrp/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index ef77c49..c5b9ad6 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -91,7 +91,7 @@ class HTTPLib(object):
 
         # If I want to modify the request arguments based on URL, method
         # and current arguments I can use this call back function.
-        self.run_req_callback(url, method, kwargs)
+        _kwargs = self.run_req_callback(url, method, _kwargs)
 
         try:
             # Do the request
-- 
2.43.0


From 9f35312c83b42ad59e7f4153b34691506c692c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 36/39] fix: a provider asked for by another name than its
 issuer keeps its client

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 08a1a06..93358de 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -361,6 +361,8 @@ class RPHandler(object):
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
         self.issuer2rp[issuer] = client
+        if iss_id != issuer:  # Known under another name, which is the one it's asked for by
+            self.issuer2rp[iss_id] = client
         return client
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-- 
2.43.0


From 435b1e56ca7f02fa26e1210066fbc30dd8222123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 37/39] fix: session IDs are kept where only front-channel
 logout uses them

A provider that says backchannel_logout_session_supported=false and
frontchannel_logout_session_supported=true had its session IDs forgotten:
the explicit false hid the front-channel's true.
---
 src/oidcrp/rp_handler.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 93358de..5d8d951 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -806,14 +806,9 @@ class RPHandler(object):
         logger.debug("UserInfo: %s", inforesp)
 
         _context = client.client_get("service_context")
-        try:
-            _sid_support = _context.get('provider_info')['backchannel_logout_session_supported']
-        except KeyError:
-            try:
-                _sid_support = _context.get('provider_info')[
-                    'frontchannel_logout_session_supported']
-            except:
-                _sid_support = False
+        _pi = _context.get('provider_info')
+        _sid_support = _pi.get('backchannel_logout_session_supported') or _pi.get(
+            'frontchannel_logout_session_supported')
 
         if _sid_support and _id_token:
             try:
-- 
2.43.0


From de2f658409ce055005ba84fff440c665ae2e378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:34 +0000
Subject: [PATCH 38/39] fix: domain and port are put into all configured URIs

The list of settings that are URIs (URIS) was not used, so {domain} and {port}
stayed in redirect URIs and logout URIs. Domain and port given to Configuration
were ignored, and a relying party's part of a configuration didn't get those of
the whole; RPConfiguration ignored the ones in the configuration.
---
 src/oidcrp/configure.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 800d24f..3693b14 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -24,12 +24,14 @@ URIS = [
 
 
 class RPConfiguration(Base):
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: Optional[str] = '',
                  entity_conf: Optional[List[dict]] = None,
-                 domain: Optional[str] = "127.0.0.1",
-                 port: Optional[int] = 80,
+                 domain: Optional[str] = "",
+                 port: Optional[int] = 0,
                  file_attributes: Optional[List[str]] = None,
                  dir_attributes: Optional[List[str]] = None,
                  ):
@@ -55,12 +57,14 @@ class RPConfiguration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port)
+                        file_attributes=file_attributes, domain=self.domain, port=self.port)
 
 
 class Configuration(Base):
     """RP Configuration"""
 
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: str = '',
@@ -71,7 +75,7 @@ class Configuration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
-                      dir_attributes=dir_attributes)
+                      dir_attributes=dir_attributes, domain=domain, port=port)
 
         log_conf = conf.get('logging')
         if log_conf:
@@ -83,7 +87,7 @@ class Configuration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port,
+                        file_attributes=file_attributes, domain=self.domain, port=self.port,
                         dir_attributes=dir_attributes)
 
 
-- 
2.43.0


From 41ff5a60063dbcdefbfd7f911ca7f309606745bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:34 +0000
Subject: [PATCH 39/39] fix: a setting with a default is found under its upper
 case name

HTTPC_PARAMS was ignored since the default was taken for the lower case value.
---
 src/oidcrp/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index e9d81f8..66f5875 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -405,7 +405,7 @@ def has_method(o, name):
 
 
 def lower_or_upper(config, param, default=None):
-    res = config.get(param.lower(), default)
+    res = config.get(param.lower())
     if not res:
         res = config.get(param.upper(), default)
     return res
-- 
2.43.0

