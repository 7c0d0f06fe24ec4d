#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (properties with a harness)."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/oidcrp/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), bound=""):
    P.append(({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}}, bound))


DB = ("session store", "session records and references to them from nonce, subject, session ID "
      "and logout state", "state_interface.py")
NA = [("C20", "whether a value can be predicted is about the distribution of its source, which no "
       "assertion over a symbolic execution states; the source is modelled as fresh values")]

prop("C01", "Authorization responses are accepted only for sessions begun with that issuer",
     "An authorization response counts as successful only if its state is that of a session this "
     "relying party began with the issuer answering, and any issuer or client ID it carries are "
     "those of the session. A response that is refused, and one that reports an error, triggers "
     "no request, stores nothing, and is reported to the caller.",
     "inputs histories", "every state, code, issuer and client value in a response, over sessions "
     "begun at two providers with OAuth2 and OpenID Connect clients",
     "Tests finish logins with matching values and one or two wrong ones; that no other value is "
     "accepted, and that a refusal leaves no trace, quantifies over all responses.",
     ["rp_handler.py", "oauth2/authorization.py", "oidc/authorization.py", "service.py"],
     [("session look-up and issuer comparison", "rp_handler.py:RPHandler.finalize_auth"),
      ("response verification", "service.py:Service.parse_response")], [DB],
     ["the result or exception of finalize / finalize_auth", "requests sent", "session store"],
     "three sessions at two providers, one response; values unbounded strings")
prop("C02", "An ID Token is accepted only with the nonce of its own authentication request",
     "A login with an ID Token, delivered over the front or the back channel, succeeds only if the "
     "token carries the very nonce this relying party put in the authentication request of that "
     "session; a token with another session's nonce, any other nonce or none is refused and "
     "leaves no user information behind.",
     "inputs histories", "every nonce value, every response type with an ID Token, concurrent "
     "sessions finished in any order with their tokens swapped or not",
     "Tests use the right nonce; token injection and swaps between concurrent sessions are not "
     "sampled.",
     ["oidc/authorization.py", "oidc/access_token.py", "rp_handler.py"],
     [("nonce to session mapping", "state_interface.py:StateInterface.get_state_by_nonce"),
      ("comparison on delivery", "oidc/access_token.py:AccessToken.update_service_context"),
      ("comparison on the front channel",
       "oidc/authorization.py:Authorization.update_service_context")], [DB],
     ["finalize / finalize_auth result"], "two sessions, one ID Token each")
prop("C03", "Only authentic, current ID Tokens meant for this client are accepted",
     "A login succeeds only with an ID Token issued by the session's provider, for this client, "
     "unexpired and not issued in the future nor too long ago within the clock skew, signed with a "
     "key of that provider using an algorithm agreed upon (unsigned only where that was allowed). "
     "On the front channel its hash values must cover the code and access token beside it.",
     "inputs configurations", "every issuer, audience, authorized party, expiry and issue time, "
     "hash value, signing key and algorithm, against every configured algorithm, over both channels",
     "Tests verify a handful of good tokens and one or two bad ones; time boundaries, audience "
     "lists and algorithm substitution need all values.",
     ["oidc/authorization.py", "oidc/access_token.py", "service.py", "oidc/utils.py"],
     [("verification arguments", "oidc/access_token.py:AccessToken.gather_verify_arguments"),
      ("verification arguments", "oidc/authorization.py:Authorization.gather_verify_arguments"),
      ("verification", "service.py:Service.parse_response")],
     [("key jar", "the provider's public keys", "service_context.py")],
     ["finalize result"], "one login, lists of audiences up to 2; times unbounded integers in "
     "their ranges")
prop("C04", "Sessions are kept apart and look-ups lead to the right one",
     "Storing into or binding a value to one session never changes what another session holds, "
     "and a nonce, subject, session ID or logout state leads to the session it was last bound to "
     "and to no other. Unknown values lead nowhere.",
     "inputs histories", "every pair of session keys, every value bound, every operation of the "
     "store, under any coincidence of values between kinds",
     "Tests store one or two fixed keys; collisions between kinds of values and sessions need all "
     "pairs.", ["state_interface.py"],
     [("prefixed reference keys", "state_interface.py:KEY_PATTERN"),
      ("storing and looking up", "state_interface.py:StateInterface")], [DB],
     ["the public look-ups of the store"], "two sessions, one to three operations; keys and "
     "values unbounded strings (session keys not beginning with the letters of the reserved "
     "prefix)")
prop("C05", "Removing a session removes all of it and nothing of any other session",
     "After a session has been ended locally neither its record nor any nonce, subject, session "
     "ID or logout state that was bound to it can be resolved, and nothing in the store mentions "
     "it. Every other session, and everything bound to it, is as before.",
     "inputs histories", "every sequence of bindings before removal, any sharing of values "
     "between sessions", "The tests remove one session with one binding each; leftovers depend on "
     "the history of bindings.", ["state_interface.py", "rp_handler.py"],
     [("removal", "state_interface.py:StateInterface.remove_state")], [DB],
     ["store look-ups after RPHandler.clear_session / remove_state"],
     "two sessions, up to 2 (quick) or 4 (thorough) bindings")
prop("C06", "A session is active exactly while its latest ID Token is unexpired",
     "A session counts as having an active authentication exactly when it holds an ID Token and "
     "the most recently accepted one, from the login or a refresh, has not expired at the time of "
     "asking; a session without one never does.",
     "inputs histories", "every expiry time and clock reading, every sequence of login over any "
     "channel and refreshes with or without a new ID Token",
     "Tests check one fixed expiry; which token counts after refreshes, and the boundary, are "
     "not reached.", ["rp_handler.py", "oauth2/refresh_access_token.py"],
     [("expiry look-up", "rp_handler.py:RPHandler.has_active_authentication")], [DB],
     ["has_active_authentication"], "one session, 1 (quick) or 2 (thorough) refreshes")
prop("C07", "A token handed out as valid is unexpired and belongs to the session",
     "Asking for a valid access token returns one that was issued to that very session and has "
     "not expired, the longest lasting one there is; when the session holds none the caller "
     "gets an error, never an expired or foreign token.",
     "inputs histories", "every expires_in and clock reading, tokens from the authorization "
     "endpoint, the token endpoint and refreshes",
     "Tests use one token with a fixed lifetime.", ["rp_handler.py", "oauth2/utils.py",
     "oauth2/access_token.py"],
     [("expiry bookkeeping", "service.py:Service.update_service_context"),
      ("selection", "rp_handler.py:RPHandler.get_valid_access_token")], [DB],
     ["get_valid_access_token"], "one session, up to 3 sources of tokens")
prop("C08", "A refresh uses the session's current refresh token and loses nothing",
     "A refresh request carries the refresh token most recently issued to that session and no "
     "other; afterwards the session holds the new access token and keeps the refresh token and "
     "ID Token unless they were replaced. An error answer is reported and changes nothing, and "
     "other sessions are never touched.",
     "inputs histories", "every token value and every sequence of refreshes with or without "
     "rotation, over two sessions", "Tests refresh once.",
     ["oauth2/refresh_access_token.py", "oidc/refresh_access_token.py", "rp_handler.py"],
     [("picking the token", "oauth2/refresh_access_token.py:RefreshAccessToken.oauth_pre_construct"),
      ("keeping what was not replaced", "oauth2/refresh_access_token.py:store_refreshed_tokens")],
     [DB], ["requests sent", "session store"], "two sessions, 2 (quick) or 3 (thorough) rounds")
prop("C09", "A code is redeemed with the parameters of the session it was received in",
     "The token request of a session carries the authorization code received in that session, "
     "the redirect URI of that session's authorization request and that client's ID, goes to the "
     "token endpoint of that session's provider, and is not sent when no code was accepted.",
     "inputs histories", "every code, three sessions at two providers redeemed in any order",
     "Tests run one session at a time.", ["oauth2/access_token.py", "oidc/access_token.py",
     "state_interface.py", "rp_handler.py"],
     [("collecting request arguments", "oauth2/access_token.py:AccessToken.oauth_pre_construct")],
     [DB], ["requests sent"], "three sessions")
prop("C10", "The PKCE verifier sent belongs to the challenge of the same session",
     "With PKCE configured every authorization request carries a fresh challenge that is the "
     "configured transformation of the verifier sent, unaltered, in that session's token request; the "
     "verifier has the configured length and appears nowhere earlier. An unknown transformation "
     "is refused.",
     "configurations histories", "every method, lengths at the ends of the permitted range, sessions interleaved in any "
     "order", "Tests compute one challenge.", ["oauth2/add_on/pkce.py"],
     [("challenge", "oauth2/add_on/pkce.py:add_code_challenge"),
      ("verifier", "oauth2/add_on/pkce.py:add_code_verifier")], [DB], ["requests sent"],
     "two sessions; verifiers are random representatives; SHA-2 as an injective function")
prop("C11", "The client authenticates as itself with the configured method only",
     "A request that needs client authentication carries the configured method's proof of this "
     "client's identity, in the standard form, and the client secret goes nowhere else: Basic and "
     "Post carry exactly its ID and secret, a signed assertion is by, about and for the right "
     "parties, fresh, unexpired and signed with a key and algorithm of the method. A client "
     "lacking the secret or the method sends nothing.",
     "inputs configurations", "every client ID and secret, every method, algorithm source and "
     "request kind", "Tests use one secret of letters and one algorithm each.",
     ["client_auth.py", "service.py", "rp_handler.py"],
     [("authentication methods", "client_auth.py"),
      ("choosing the algorithm", "client_auth.py:JWSAuthnMethod._get_audience_and_algorithm")],
     [("key jar", "keys of the client", "service_context.py")], ["requests sent"],
     "one or two requests; keys and assertion secrets are fixed representatives")

prop("C12", "User info is requested with the session's own current access token",
     "A request for user info goes to the provider's user info endpoint and presents, as bearer "
     "token and nowhere else, the access token given by the caller or else the one most recently "
     "issued to that session, and at the end of a login the one handed out to the caller; "
     "without a token nothing is sent.",
     "inputs histories", "every token value; tokens from the front channel, the token endpoint "
     "and a refresh; a second session with a token of its own",
     "Tests pass one fixed token explicitly.",
     ["oidc/userinfo.py", "client_auth.py", "rp_handler.py"],
     [("token selection", "oidc/userinfo.py:UserInfo.oidc_pre_construct"),
      ("bearer token", "client_auth.py:BearerHeader"),
      ("token of the login", "rp_handler.py:RPHandler.get_access_and_id_token")], [DB],
     ["requests sent"], "two sessions, up to three sources of tokens")

prop("C13", "Provider metadata counts only if it is that of the provider asked",
     "Discovered metadata is used only if the issuer it names is the one that was asked for, but "
     "for a slash at the end, unless a mismatch was explicitly allowed; it is asked for at that "
     "issuer's well-known address. Later requests go exactly to the endpoints it names. After "
     "anything else (another issuer, an error, missing required metadata) no client, endpoint or "
     "key remains and nothing more is sent.",
     "inputs configurations", "every issuer named, every endpoint address, OAuth2 and OpenID "
     "Connect clients, every configured tolerance",
     "Tests read one document; that no other issuer passes is a statement about all strings.",
     ["oauth2/provider_info_discovery.py", "oidc/provider_info_discovery.py", "rp_handler.py",
      "oauth2/__init__.py"],
     [("issuer comparison", "oauth2/provider_info_discovery.py:ProviderInfoDiscovery._verify_issuer"),
      ("endpoints", "oauth2/provider_info_discovery.py:ProviderInfoDiscovery._set_endpoints"),
      ("configured metadata", "rp_handler.py:RPHandler.do_provider_info")],
     [("service context", "issuer, metadata, keys", "service_context.py")],
     ["requests sent", "clients of the handler"], "one provider; issuers and addresses unbounded "
     "strings over the characters of URLs without query")
prop("C14", "Only what the provider supports is chosen among the client's preferences",
     "Of each preference the client uses, registers and later applies the first value the provider "
     "supports (of a list of values, exactly the supported ones in order), and where the provider "
     "says nothing the standard's default. When a preference with a single value cannot be met "
     "the caller gets an error and nothing is registered.",
     "inputs configurations", "every pair of preferred and of supported values, for every "
     "preference, stated or not", "Tests match two or three fixed documents.",
     ["oidc/provider_info_discovery.py", "oidc/registration.py"],
     [("matching", "oidc/provider_info_discovery.py:ProviderInfoDiscovery.match_preferences")],
     [("behaviour", "what was chosen", "service_context.py")],
     ["behaviour", "registration request", "token request"],
     "one preference at a time with two values on either side; no value set in the "
     "configuration's behaviour beforehand")
prop("C15", "Dynamic registration registers what is then used",
     "The redirect URI, response type and authentication method of later requests are among those "
     "registered, with grant types that fit; redirect URIs of different providers differ. The "
     "client ID and secret issued are those used, at that provider only; registration happens "
     "once, hands out public keys only, and when it fails there is no client.",
     "inputs configurations", "every one and two response types, every client ID and secret "
     "issued by two providers", "Tests register with one response type at one provider.",
     ["oidc/registration.py", "oauth2/utils.py", "util.py", "rp_handler.py"],
     [("callback addresses", "oidc/registration.py:create_callbacks"),
      ("adopting the response", "oidc/registration.py:Registration.update_service_context"),
      ("choice of the redirect URI", "oauth2/utils.py:pick_redirect_uri")],
     [("service context", "client ID and secret, callbacks", "service_context.py")],
     ["requests sent"], "two providers, one login each")


prop("C16", "An HTTP answer counts as what it is",
     "A token or user info request succeeds only if the answer has a status of success and a body "
     "that is a valid answer; what is then handed on and stored is what the answer says. Errors "
     "are reported as such. When the request fails or nothing answers the session is as before "
     "and the request can be repeated.",
     "inputs faults", "every status from 200 to 599 with each kind of body and content type, every "
     "token value and error code, network failures before a success",
     "Tests use status 200, 400 and 500 with one body each.",
     ["oauth2/__init__.py", "rp_handler.py", "service.py"],
     [("status and body", "oauth2/__init__.py:Client.parse_request_response"),
      ("content type", "oauth2/__init__.py:Client.service_request"),
      ("errors", "rp_handler.py:RPHandler.get_access_token")],
     [("state record", "token_response, refresh_token_response", "oidcrp/oauth2/access_token.py")],
     ["result or exception", "stored records"], "two sessions, one request, up to two failures")


prop("C17", "User info is about the user who logged in, from those who may say it",
     "User info is taken and kept for a session only if its subject is that of the session's latest "
     "ID Token; signed user info only if the provider's signature verifies with the algorithm "
     "agreed. Aggregated claims count only with a verified signature of their source; a source "
     "adds only the claims it is named for, never the subject; a claims endpoint gets its own "
     "token only and its failure is reported.",
     "inputs", "every pair of subjects, every claim value, every signer and algorithm, claims "
     "sources with every assignment of names", "Tests fetch matching unsigned info and one "
     "well-behaved source.",
     ["oidc/userinfo.py", "oidc/__init__.py", "service.py", "rp_handler.py"],
     [("subject and aggregated claims", "oidc/userinfo.py:UserInfo.post_parse_response"),
      ("signed info", "service.py:Service._do_jwt"),
      ("distributed claims", "oidc/__init__.py:RP.fetch_distributed_claims")],
     [("state record", "user_info", "state_interface.py")],
     ["user info handed out and stored", "requests sent"], "up to three sessions, two sources")


prop("C18", "Back-channel logout ends the provider's own session meant, and only that",
     "A back-channel logout leads to a session only with a logout token signed by a key of the "
     "session's provider with the algorithm agreed, issued by it for this client, with the logout "
     "event and without a nonce. The session found is the one whose subject or session ID the "
     "token names; no provider reaches another's sessions, and a session ended is not found again.",
     "inputs histories", "every issuer, audience, subject, session ID, signer, algorithm and event, "
     "over up to three sessions of one or two providers", "Tests send one right logout token to "
     "a client with one session.",
     ["rp_handler.py", "state_interface.py"],
     [("verification and look-up", "rp_handler.py:backchannel_logout"),
      ("references by sub and sid", "state_interface.py:StateInterface.store_sub2state")], [DB],
     ["the session key returned or exception", "session store"], "up to three sessions")
prop("C19", "RP-initiated logout is about its session and goes to its provider",
     "Logging a session out sends the user to the end session endpoint of that session's provider "
     "with that session's most recent ID Token as hint, a post_logout_redirect_uri that was "
     "configured, and a fresh state that leads back to that session only. Where there is no such "
     "session, endpoint or service, this is reported and nobody is sent anywhere.",
     "inputs histories", "every ID Token and redirect URI configuration, histories of logins, "
     "refreshes, logouts and removals with up to three sessions", "Tests log one session out.",
     ["rp_handler.py", "oidc/end_session.py", "state_interface.py"],
     [("hint, state and redirect URI", "oidc/end_session.py:EndSession"),
      ("logout", "rp_handler.py:RPHandler.logout")], [DB],
     ["URL returned", "session store"], "up to three sessions, two refreshes")
prop("C20", "States, nonces and code verifiers can't be predicted",
     "The state, nonce, PKCE code verifier and the other random values that protect a login come "
     "from a cryptographically secure source with at least 128 bits of entropy.",
     "inputs", "every value generated", "A distribution can't be seen in samples.",
     ["util.py"], [("source", "util.py:rndstr")], [], ["values generated"])
prop("C21", "An authorization request says what was configured and asked for",
     "The authorization request goes to the provider's authorization endpoint and carries this "
     "client's ID and redirect URI, the response type and scope in force, and every configured "
     "or asked for parameter unaltered, whatever characters it has, what is asked winning over "
     "what is configured. State and nonce are fresh for each request, nothing of one request "
     "shows up in another or changes the configuration, and the request is kept as sent.",
     "inputs histories", "every value of every parameter, for OAuth2 and OpenID Connect, sequences "
     "of requests at two providers", "Tests compare a few requests with plain values.",
     ["rp_handler.py", "oauth2/authorization.py", "oidc/authorization.py", "service.py"],
     [("request arguments", "rp_handler.py:RPHandler.init_authorization"),
      ("serialisation", "service.py:Service.get_request_parameters")], [DB],
     ["URL returned", "session store"], "three requests, two extra parameters at a time")
prop("C22", "WebFinger finds the provider of the user's identifier, and only it",
     "Given a user's identifier, the host it names is asked over TLS about that very identifier; "
     "the provider used is that of the first issuer link, never an insecure one unless allowed. "
     "Where there's none, an error is reported and nobody else is contacted. A provider that "
     "already has, or is configured with, a client keeps it with all its sessions.",
     "inputs histories", "every identifier form and value, every list of up to three links, "
     "sequences of users of two providers", "Tests use one identifier and one link.",
     ["oidc/webfinger.py", "rp_handler.py"],
     [("request", "oidc/webfinger.py:WebFinger.query"),
      ("choice of link", "oidc/webfinger.py:WebFinger.update_service_context"),
      ("client for the provider", "rp_handler.py:RPHandler.client_setup")], [DB],
     ["requests sent", "URL returned", "clients and sessions afterwards"],
     "four users, three links")


prop("C23", "What happens at one provider makes no difference to a client at another",
     "The requests a provider gets, and what the client there knows and returns, are the same "
     "whatever other providers the relying party has clients at state in their metadata, "
     "registration answers, tokens and user info, and however logins there interleave. This holds "
     "for clients made from the default configuration, and from ones that share objects.",
     "inputs histories", "every secret, identifier and token of the other provider, its "
     "capabilities and registration answers, every interleaving of two logins in stages",
     "Tests use one provider at a time, or fixed static ones.",
     ["rp_handler.py", "service_context.py", "oidc/provider_info_discovery.py",
      "oidc/registration.py"],
     [("configuration of a client", "rp_handler.py:RPHandler.init_client"),
      ("client's own copy", "service_context.py:ServiceContext.__init__"),
      ("preferences matched", "oidc/provider_info_discovery.py:ProviderInfoDiscovery")],
     [("behaviour", "what the client goes by at its provider", "service_context.py")],
     ["requests sent", "results of finalize", "service context"],
     "two providers, a login at each, in four interleavings")


prop("C24", "A session is about one user, from its first ID Token to its last refresh",
     "All ID Tokens accepted in a session are about the same subject: a second one from the token "
     "endpoint in a hybrid flow, or one that comes with a refresh, counts only if it is verified "
     "like the first (signature, algorithm, issuer, audience, times, nonce if present) and about "
     "the user of the first. Otherwise it's reported and changes nothing, and the ID Token of the "
     "user is not lost. User info is taken about that user only, refreshed or not.",
     "inputs histories", "every subject of both ID Tokens and the user info, every nonce, audience "
     "and expiry of a refreshed ID Token, every signer and algorithm", "Tests never refresh with an "
     "ID Token and use one subject.",
     ["oidc/access_token.py", "oidc/refresh_access_token.py", "rp_handler.py", "oidc/userinfo.py"],
     [("same user", "oidc/access_token.py:AccessToken.update_service_context"),
      ("ID Token of a refresh", "oidc/refresh_access_token.py:RefreshAccessToken"),
      ("ID Token handed out", "rp_handler.py:RPHandler.get_access_and_id_token")], [DB],
     ["result of finalize, refresh and user info requests", "session store"],
     "one login, up to two refreshes")

prop("C25", "DPoP proofs are for the request they come with, by a key of the client's own",
     "Where a client uses DPoP and its provider supports one of the client's algorithms, each token, "
     "refresh and user info request comes with a proof: typ dpop+jwt, signed with the first of the "
     "client's algorithms the provider supports, by the key whose public half (alone) is in the "
     "header, about the method and address of that request, issued at that time, with an ID never "
     "used before. The key is always the same at a provider, another at another. Where the provider "
     "supports none, requests are made without a proof, and are otherwise as usual.",
     "inputs histories", "every token and user info endpoint, time, order of requests at two "
     "providers, lists of algorithms on both sides", "Tests make one proof at a time for one fixed "
     "endpoint and don't verify it.",
     ["oauth2/add_on/dpop.py", "service.py"],
     [("proof", "oauth2/add_on/dpop.py:dpop_header"),
      ("where it's used", "oauth2/add_on/dpop.py:add_support"),
      ("headers of a request", "service.py:Service.get_headers")],
     [("DPoP key", "the client's DPoP key at a provider", "oauth2/add_on/dpop.py")],
     ["requests sent"],
     "two providers, a login at each, three requests in any order")

prop("C26", "A request object, passed or pushed, is the whole request, signed by the client",
     "Where an authorization request is passed as a request object, by value, by reference or pushed "
     "to the provider beforehand, the object carries the whole request as the session keeps it "
     "(state, nonce, code challenge, extra parameters) and nothing else, is issued by the client for "
     "the provider at that time, and is signed with the algorithm agreed by a key the client "
     "publishes. What is repeated beside it is the same, and only what OAuth 2 requires. A reference "
     "that is used is the one under which that login's own object was written or that the provider "
     "gave for it; files are only written below the directory the client runs from. The login then "
     "goes on as usual.",
     "inputs histories", "every client ID, extra parameter, registered request URI up to a number of "
     "segments, reference given by the provider; two logins", "Tests make one request object and "
     "don't verify it.",
     ["oidc/authorization.py", "oidc/utils.py", "oauth2/add_on/pushed_authorization.py",
      "service_context.py"],
     [("request object", "oidc/authorization.py:Authorization.construct_request_parameter"),
      ("file and address", "oidc/utils.py:construct_request_uri"),
      ("file of an address", "service_context.py:ServiceContext.filename_from_webname"),
      ("pushed", "oauth2/add_on/pushed_authorization.py:push_authorization")],
     [("request object", "what is signed and passed instead of parameters",
       "oidc/authorization.py")],
     ["authorization URLs", "files written", "requests sent"],
     "two logins; one provider; addresses of up to 3 segments")


prop("C28", "Cookies come back as they were sent, or not at all",
     "A cookie made with a seed, and with or without an encryption key, gives back exactly the load "
     "and time stamp it was made with when it is read with the same seed and key, whatever the load "
     "and whatever other cookies come with it. Read with another seed or key, under another name, or "
     "put together of other parts than one cookie's (load, time stamp, signature, nonce, cipher text, "
     "tag), it is refused with InvalidCookieSign or not found; nothing else is accepted or raised. "
     "Domain, path, SameSite and expiry are those asked for, and unless told otherwise cookies are "
     "Secure and HttpOnly; a deleted cookie has expired. A cookie dealer reads value, time and type "
     "of its own cookies and none of another's.",
     "inputs", "every load, time stamp, seed, key, signature, attribute value and time",
     "Tests read one cookie back and change one character of a load and a time stamp.",
     ["cookie.py"],
     [("made", "cookie.py:make_cookie"), ("read", "cookie.py:parse_cookie"),
      ("compared", "cookie.py:safe_str_cmp"), ("dealer", "cookie.py:CookieDealer")],
     [("seal", "the MAC or AEAD over load and time stamp", "cookie.py")],
     ["Set-Cookie headers", "values read"],
     "two cookies per seed; no control characters in loads")

prop("C27", "A client acting in its own name keeps and refreshes its own token",
     "A client credentials request goes to the token endpoint, authenticated with exactly the "
     "client's ID and secret by the configured method, and says nothing else than was asked for. "
     "The token received is kept under the name the application gave, or the common one, with its "
     "expiry reckoned from when it was received. A refresh is made with the refresh token last "
     "received under that name, which stays in use until the server replaces it; with none, no "
     "request is made. Tokens kept under different names have nothing to do with each other, and "
     "an answer that isn't a token response changes nothing.",
     "inputs histories", "every client ID, secret, scope, token, name and lifetime, over a request "
     "and up to two (thorough: three) refreshes",
     "Tests make one request and one refresh, with fixed values and a name they mint themselves.",
     ["oauth2/client_credentials/cc_access_token.py",
      "oauth2/client_credentials/cc_refresh_access_token.py", "client_auth.py"],
     [("request and storing", "oauth2/client_credentials/cc_access_token.py:CCAccessToken"),
      ("refresh", "oauth2/client_credentials/cc_refresh_access_token.py:CCRefreshAccessToken"),
      ("token used", "client_auth.py:find_token")], [DB],
     ["requests sent", "state.get_item", "the result of do_request"],
     "two refreshes (thorough: three), two names")

prop("C29", "Requests go out as configured and carry nothing that isn't their own",
     "Every HTTP request the relying party makes (discovery, keys, registration, tokens, user info, "
     "distributed claims) has its certificates verified, with the CA, client certificate and time "
     "limit configured, and what the application's request callback makes of it. Where an answer "
     "redirects to isn't followed and counts as no success. A request carries no header, body, "
     "token or cookie of a request before it or of another host.",
     "inputs histories", "every CA, certificate and time limit, redirect status and target, token and "
     "cookie value, over a whole login, claims fetched, and a refresh",
     "Tests replace the network below the HTTP library and don't look at how a request is made.",
     ["http.py", "rp_handler.py", "oauth2/__init__.py", "oidc/__init__.py"],
     [("request", "http.py:HTTPLib.__call__"), ("configuration", "rp_handler.py:RPHandler.__init__"),
      ("answer", "oauth2/__init__.py:Client.get_response")], [],
     ["calls of requests.Session.request"],
     "one login with two claim sources, fetched at most twice")

prop("C30", "What a client has learnt can be taken over by another, which carries on from it",
     "A client whose knowledge was dumped and loaded into another process carries on any login from "
     "where it was: same credentials, code, verifier, tokens, keys they are bound to, subject, "
     "session look-ups and logout. What the provider said of itself and registered goes on applying, "
     "and nothing has to be asked again.",
     "inputs histories", "the points of a login a takeover can be at, every client ID, secret, code, "
     "token, subject and session ID, into a new client or one in use",
     "Tests dump and load one context and compare a few attributes; they don't carry on from it.",
     ["service_context.py", "client_auth.py", "rp_handler.py", "oauth2/add_on/dpop.py"],
     [("dump and load", "service_context.py:ServiceContext.parameter"),
      ("carrying on", "rp_handler.py:RPHandler.get_client_from_session_key")],
     [], ["requests and results of a relying party with the same configuration that loaded the dump"],
     "one login and its refresh; thorough: takeovers before every step, with and without PKCE")

prop("C31", "Logins at one provider, however their steps interleave, go as they would alone",
     "Two logins at the same provider, with arguments of their own, cause the requests, and return "
     "the results, that each does by itself, in whatever order their steps come: begin, finish, "
     "refresh, log out. The client is discovered and registered once, under whatever name the "
     "provider is configured.",
     "inputs histories", "every order of the steps of two logins, every access and refresh token and "
     "subject, the same or not, with different scopes, response types, redirect URIs, claims, prompts",
     "Tests go through one login, or through two one after the other.",
     ["rp_handler.py", "oauth2/authorization.py", "oidc/authorization.py", "state_interface.py"],
     [("client for a provider", "rp_handler.py:RPHandler.client_setup"),
      ("begin", "rp_handler.py:RPHandler.init_authorization"),
      ("finish", "rp_handler.py:RPHandler.finalize")], [], [],
     "two logins of three steps, all 20 orders; thorough: four steps, all 70 orders, every combination "
     "with three kinds of configuration")

prop("C32", "A finished login hands out what the provider sent for it",
     "A login that succeeds gives the caller the state, the access token, the ID Token, the session "
     "state and the user info that the provider sent for it: from the token endpoint where a code was "
     "redeemed and otherwise from the authorization response, user info from the user info endpoint, "
     "asked with that access token, where there is one to ask and otherwise from the ID Token. Only "
     "what is needed is asked for. Subject, and session ID where the provider's logout uses them, "
     "lead back to the session.",
     "inputs", "every code, access token, subject, session ID, session state and claim value, all "
     "seven response types, with and without a user info service and session support at either "
     "logout channel",
     "Tests finish a code login at GitHub-like providers and look at a few members of the result.",
     ["rp_handler.py", "oidc/access_token.py", "oidc/userinfo.py", "oidc/authorization.py"],
     [("finish", "rp_handler.py:RPHandler.finalize"),
      ("which tokens", "rp_handler.py:RPHandler.get_access_and_id_token"),
      ("user info", "rp_handler.py:RPHandler.get_user_info")], [], [],
     "one login; what varies within each response type is stated at the harness")

prop("C33", "A configuration means what it says, wherever and in whichever case",
     "A setting of a relying party's configuration has the same effect whether its name is in lower "
     "or upper case and whether the configuration stands by itself or is part of a larger one. "
     "{domain} and {port} in base URL, redirect URIs and logout URIs stand for the domain and port "
     "given, as arguments or in the configuration; all other values are used as they are. File names "
     "are relative to the base path. Without settings peers are verified and the hash seed is random.",
     "inputs", "every domain, port, client ID, secret, seed, path and certificate name",
     "Tests load two files, which give neither arguments nor upper case names, and look at the base URL.",
     ["configure.py", "util.py", "rp_handler.py", "service_context.py"],
     [("configuration", "configure.py:RPConfiguration"),
      ("whole", "configure.py:Configuration"),
      ("either case", "util.py:lower_or_upper"),
      ("HTTP parameters", "util.py:get_http_params")], [], [],
     "one client, three layouts, an absolute base path")


def harnesses(id):
    """Name, description and bounds of the harnesses of a property."""
    f, = glob.glob(os.path.join(HERE, "harness", id.lower() + "_*.py"))
    with open(f) as fh:
        t = ast.parse(fh.read())
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                yield n.name, " ".join(ast.get_docstring(n).split()), kw


def planted():
    """The table of the planted bugs."""
    out = ["| Bug | Check | Breaks | When |", "| --- | --- | --- | --- |"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        with open(f) as fh:
            d = json.load(fh)
        out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"],
                                              d["what_it_breaks"], d["needs"]))
    return "\n".join(out) + "\n"


def design(here):
    """The part of DESIGN.md about the harnesses of each property."""
    out = []
    for p, bound in P:
        id = p["id"]
        out.append("### %s %s\n" % (id, p["title"]))
        if id not in here:
            out.append("Not applicable: %s.\n" % dict(NA)[id])
            continue
        for name, doc, kw in harnesses(id):
            b = ""
            if kw.get("bounds"):
                b = " (%s; thorough: %s)" % tuple(
                    ", ".join("%s %s" % i for i in sorted(d.items())) for d in (
                        kw["bounds"], dict(kw["bounds"], **kw.get("thorough", {}))))
            if kw.get("quick") is False:
                b += " (thorough only)"
            out.append("* `%s`: %s%s" % (name, doc, b))
        out.append("\nFor %s. Bounds: %s. Beyond the tests: %s\n" % (
            p["quantifier"]["text"], bound, p["why_tests_cant"][0].lower() +
            p["why_tests_cant"][1:]))
    f = os.path.join(HERE, "DESIGN.md")
    with open(f) as fh:
        a, rest = fh.read().split("<!-- harnesses -->\n")[0::2]
    with open(f, "w") as fh:
        m = "<!-- harnesses -->\n"
        n = "<!-- planted -->\n"
        b, end = rest.split(n)[0::2]
        fh.write(a + m + "\n".join(out) + m + b + n + planted() + n + end)


def main():
    here = {re.match(r"(c\d+)_", os.path.basename(f)).group(1).upper()
            for f in glob.glob(os.path.join(HERE, "harness", "c[0-9]*_*.py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            if p["id"] in here or p["id"] in [n for n, _ in NA]:
                assert len(p["title"]) <= 80, p["title"]
                for fn in p["anchors"]["files"]:
                    assert os.path.exists("/repo/" + fn), fn
                f.write(json.dumps(p) + "\n")
    assert here <= {p["id"] for p, _ in P}, here
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [
        {"property": n, "reason": r} for n, r in NA]}
    for p, bound in P:
        if p["id"] in here:
            m["checks"].append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": "path-exhaustive symbolic execution of the real Python code with z3/cvc5",
                "level": "model_checking",
                "level_note": "Holds for all values of the symbolic inputs within: " + bound +
                ". Trusts the models of JSON, URL and base64 codecs, JOSE signatures and hashes "
                "(injective, unforgeable), and z3/cvc5; every counterexample and a sample of the "
                "explored paths are re-run on the unmodified code."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(here)
    print(len(m["checks"]), "checks")


if __name__ == "__main__":
    main()
