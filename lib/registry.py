"""What each property depends on; the deductive units are listed in deduct.py."""
import json, os
import methods
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}
for _l in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8"):
    _p = json.loads(_l)
    _files = [f for f in _p["anchors"]["files"] if f.endswith(".rs")]
    PROPS[_p["id"]] = {"title": _p["title"], "files": _files, "level": methods.M[_p["id"]][0] if _p["id"] in methods.M else "other",
                        "technique": methods.technique(_p["id"]) if _p["id"] in methods.M else "", "note": methods.note(_p["id"]) if _p["id"] in methods.M else "", "assumptions": []}
NOT_APPLICABLE = {
    "C26": "the error of the lossy codecs is decided inside third-party DCT/VP8/LZW encoders (jpeg-encoder, libwebp C code, gif): "
           "no contract on this repository's functions expresses or decides a bound on it",
}
