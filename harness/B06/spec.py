BOUNDS = "every 32-bit code value in each direction, messages of three arbitrary bytes"
OUTSIDE = "binary details of RPC statuses (not translated by the code); messages longer than three bytes"
ASSUMPTIONS = ["the RPC library's status is the value type of stubs/include/grpcpp"]
UNITS = {"c": dict(harness="conv.cc", sources=["fcp/base/status_converters.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, **p): return dict(unit="c", name=name, params=p, reach=[reach])
JOBS = [j("from the RPC library", "from rpc", mode=0), j("to the RPC library", "to rpc", mode=1), j("from the wire", "from wire", mode=2), j("to the wire", "to wire", mode=3), j("response codes", "http", mode=4)]
