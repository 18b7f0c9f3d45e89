"""Real files in a scratch directory and a stand-in for the web."""
import os
import shutil
import posixpath

import brel.services.factory as service_factory
from harness.lib import *

HOME = os.environ["HOME"]
WEB = {}
FETCHED = []


class Response:
    def __init__(self, content):
        self.status_code = 404 if content is None else 200
        self.content = content if content is not None else b"<html>not found</html>"

    def raise_for_status(self):
        if self.status_code != 200:
            raise ValueError("404 Client Error")


class Session:
    """Stand-in for requests.Session: serves WEB and records what is fetched."""

    def get(self, uri, **k):
        FETCHED.append(uri)
        return Response(WEB.get(uri))


service_factory.Session = Session


def fresh():
    """An empty scratch directory of this process with an empty cache below it."""
    root = HOME + "/w%d" % os.getpid()
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/home/.brel/dts_cache")
    os.makedirs(root + "/d")
    os.environ["HOME"] = root + "/home"
    WEB.clear()
    FETCHED.clear()
    return root + "/d"


def content(element):
    return etree.tostring(element.getroottree(), encoding="UTF-8", xml_declaration=True)


def write(path, data):
    os.makedirs(posixpath.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
