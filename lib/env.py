"""Loads the code under test from VP_REPO (default /repo) with its outside world replaced.

Everything the library would reach outside its own process is patched here, before pypsrp is imported:
the HTTP adapter (requests go to an in-process fake server chosen by host name), the clock, sleeping,
RSA key generation and the security context factory.  Nothing inside pypsrp is patched."""
import io, os, sys, threading, warnings, logging

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
for k in list(os.environ):
    if k.lower() in ("http_proxy", "https_proxy", "no_proxy", "all_proxy", "requests_ca_bundle", "curl_ca_bundle"):
        del os.environ[k]
REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = max(1, min(8, os.cpu_count() or 1))

import requests, requests.adapters, urllib3
import time as _time

REAL_SEND = requests.adapters.HTTPAdapter.send
REAL_SLEEP, REAL_TIME, REAL_MONO = _time.sleep, _time.time, _time.monotonic


class Runaway(BaseException):
    """The code under test sent a request the scenario has no answer for, or never ended."""


HANDLERS = {}  # host name -> callable(request, timeout) -> (status, headers, body) | raises


class _FakeConn:
    pass


def _fake_send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    host = urllib3.util.parse_url(request.url).host
    h = HANDLERS.get(host)
    if h is None:
        return REAL_SEND(self, request, stream=stream, timeout=timeout, verify=verify, cert=cert, proxies=proxies)
    request.vp_sent = dict(timeout=timeout, verify=verify, cert=cert, proxies=dict(proxies or {}))
    status, headers, body = h(request, timeout)
    raw = urllib3.HTTPResponse(body=io.BytesIO(body), headers=headers, status=status, preload_content=False,
                               reason={200: "OK", 401: "Unauthorized", 500: "Internal Server Error"}.get(status, "x"))
    raw._original_response = None
    r = self.build_response(request, raw)
    if not stream:
        r.content
    return r


requests.adapters.HTTPAdapter.send = _fake_send


class Clock:
    """Virtual clock: sleeping advances it and is recorded."""
    def __init__(self):
        self.now, self.sleeps, self.on, self.hook = 1700000000.0, [], False, None
    def sleep(self, s):
        if not self.on or threading.current_thread() is not threading.main_thread():
            return REAL_SLEEP(s)
        self.sleeps.append(s)
        self.now += s
        if len(self.sleeps) > 5000:
            raise Runaway("endless sleep loop")
    def time(self):
        if not self.on:
            return REAL_TIME()
        self.now += 0.001
        return self.now
    def mono(self):
        if not self.on:
            return REAL_MONO()
        self.now += 0.001
        return self.now


CLOCK = Clock()
_time.sleep, _time.time, _time.monotonic = CLOCK.sleep, CLOCK.time, CLOCK.mono

# RSA keys are slow to make; hand out keys from a small pool made on demand.
from cryptography.hazmat.primitives.asymmetric import rsa as _rsa
_REAL_GEN = _rsa.generate_private_key
_KEYS = {}
KEYGEN = []
def _gen(public_exponent, key_size, backend=None):
    KEYGEN.append(key_size)
    i = len(KEYGEN) % 2
    k = (public_exponent, key_size, i)
    if k not in _KEYS:
        _KEYS[k] = _REAL_GEN(public_exponent=public_exponent, key_size=key_size)
    return _KEYS[k]
_rsa.generate_private_key = _gen

import spnego as _spnego
REAL_SPNEGO_CLIENT = _spnego.client
SPNEGO_FACTORY = [None]
def _client(*a, **k):
    if SPNEGO_FACTORY[0] is None:
        return REAL_SPNEGO_CLIENT(*a, **k)
    return SPNEGO_FACTORY[0](*a, **k)
_spnego.client = _client

# CredSSP needs a Windows server; the stand-in makes its one-token context with CREDSSP_FACTORY.
import requests_credssp as _rc
from requests.auth import AuthBase as _AuthBase
CREDSSP_FACTORY = [None]
class HttpCredSSPAuth(_AuthBase):
    def __init__(self, username=None, password=None, **kwargs):
        self.contexts = {}
    def __call__(self, request):
        request.headers["Connection"] = "Keep-Alive"
        request.register_hook("response", self.hook)
        return request
    def hook(self, response, **kwargs):
        if response.status_code == 401 and "CREDSSP" in response.headers.get("www-authenticate", "").upper():
            self.contexts[urllib3.util.parse_url(response.request.url).host] = CREDSSP_FACTORY[0]()
            r = response.request.copy()
            r.headers["Authorization"] = "CredSSP dG9rZW4="
            response.content
            response = response.connection.send(r, **kwargs)
        return response
_rc.HttpCredSSPAuth = HttpCredSSPAuth

sys.path.insert(0, os.path.join(REPO, "src"))
import pypsrp
assert os.path.abspath(pypsrp.__file__).startswith(os.path.join(os.path.abspath(REPO), "src") + os.sep), pypsrp.__file__
import pypsrp.wsman, pypsrp.shell, pypsrp.powershell, pypsrp.client, pypsrp.serializer, pypsrp.host
import pypsrp.complex_objects, pypsrp.messages, pypsrp.exceptions, pypsrp.encryption, pypsrp.negotiate
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
