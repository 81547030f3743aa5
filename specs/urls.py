"""A model of urllib.parse.urlsplit for texts that are not known in full (trusted;
compared with the real function by the harness `urlsplit_model` of C18)."""
from __future__ import annotations

import ipaddress


class Url:
    def __init__(self, scheme, netloc, path, query, fragment):
        self.scheme = scheme
        self.netloc = netloc
        self.path = path
        self.query = query
        self.fragment = fragment

    def hostinfo(self):
        hostinfo = self.netloc.rpartition("@")[2]
        before, opened, bracketed = hostinfo.partition("[")
        if opened:
            hostname, x, port = bracketed.partition("]")
            port = port.partition(":")[2]
        else:
            hostname, x, port = hostinfo.partition(":")
        return hostname, port if port else None

    @property
    def hostname(self):
        hostname = self.hostinfo()[0]
        if not hostname:
            return None
        hostname, percent, zone = hostname.partition("%")
        return hostname.lower() + percent + zone

    @property
    def port(self):
        port = self.hostinfo()[1]
        if port is not None:
            if port.isdigit() and port.isascii():
                port = int(port)
            else:
                raise ValueError("Port could not be cast to integer value")
            if not (0 <= port and port <= 65535):
                raise ValueError("Port out of range 0-65535")
        return port

    def __iter__(self):
        return iter((self.scheme, self.netloc, self.path, self.query, self.fragment))

    def __getitem__(self, i):
        return (self.scheme, self.netloc, self.path, self.query, self.fragment)[i]


SCHEME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-."
C0 = "".join(chr(i) for i in range(0x21))


def cut(url):
    """(netloc, rest) of what follows //"""
    at = len(url)
    for ch in ("/", "?", "#"):
        i = url.find(ch)
        if i >= 0 and i < at:
            at = i
    return url[:at], url[at:]


def bracketed(netloc, check):
    hostinfo = netloc.rpartition("@")[2]
    before, opened, rest = hostinfo.partition("[")
    if opened:
        if before:
            raise ValueError("Invalid IPv6 URL")
        hostname, x, port = rest.partition("]")
        if port and not port.startswith(":"):
            raise ValueError("Invalid IPv6 URL")
    else:
        hostname = hostinfo.partition(":")[0]
    check(hostname)


def is_ipv6(hostname):
    if isinstance(ipaddress.ip_address(hostname), ipaddress.IPv4Address):
        raise ValueError("An IPv4 address cannot be in brackets")


def urlsplit(url, check=is_ipv6):
    """`check` decides whether what is in brackets is an IPv6 address"""
    url = url.lstrip(C0)
    for ch in ("\t", "\r", "\n"):
        if ch in url:
            url = url.replace(ch, "")
    scheme = netloc = query = fragment = ""
    head, colon, rest = url.partition(":")
    if colon and head and head.isascii() and head[:1].isalpha() and not head.strip(SCHEME):
        scheme = head.lower()
        url = rest
    if url.startswith("//"):
        netloc, url = cut(url[2:])
        if ("[" in netloc) != ("]" in netloc):
            raise ValueError("Invalid IPv6 URL")
        if "[" in netloc:
            bracketed(netloc, check)
    if "#" in url:
        url, x, fragment = url.partition("#")
    if "?" in url:
        url, x, query = url.partition("?")
    return Url(scheme, netloc, url, query, fragment)
