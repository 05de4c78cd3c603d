BOUNDS = "every line of up to 5 bytes (thorough 6); every three-byte status code with five kinds of rest; 4 lines (thorough 5) of seven kinds with one arbitrary byte each; look-ups in up to three headers"
OUTSIDE = "longer lines; when the transport follows redirects other than 301"
ASSUMPTIONS = []
UNITS = {"h": dict(harness="headers.cc", sources=["fcp/client/http/curl/curl_header_parser.cc", "fcp/client/http/curl/curl_http_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="h", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("one line", ["line"], mode=0, len=5), j("status line", ["status", "odd code"], mode=1), j("several responses", ["responses"], mode=2, lines=3), j("any status line", ["any"], mode=3, len=5), j("look-up", ["find"], mode=4),
        j("one line, longer", ["line"], "thorough", mode=0, len=6), j("several responses, longer", ["responses"], "thorough", mode=2, lines=4)]
