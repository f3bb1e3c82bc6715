"""Properties of classes, coroutines and file-system functions that are outside
the verifier's subset: run-time contracts in rt/, bounded."""
from .common import prop

prop('C18', drivers=['placement'])
prop('C19', drivers=['blocklist'])
prop('C20', drivers=['npyrec'])
prop('C21', drivers=['npyload', 'npyrec'])
prop('C22', drivers=['csvrec'])
prop('C23', drivers=['geojson'])
prop('C24', drivers=['tree'])
prop('C33', drivers=['traits'])
prop('C36', drivers=['config'])
