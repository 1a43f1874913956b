ID="c14-context-shared"; PROPERTY="C14"
EDITS=[("connection.py","        ctx.check_hostname = True\n        ctx.verify_mode = ssl.CERT_REQUIRED\n","        ctx.check_hostname = ctx.verify_mode is not ssl.CERT_REQUIRED\n        ctx.verify_mode = ssl.CERT_REQUIRED\n")]
NEEDS="a connection in mode verify-full to a server with a certificate issued to another host"
BREAKS="the host name is not verified in mode verify-full"
DEMO='''
import ssl

from pysqlsync.connection import ConnectionSSLMode, create_context

for mode in ConnectionSSLMode:
    context = create_context(mode)
    if mode is ConnectionSSLMode.disable:
        assert context is None
        continue
    print(mode, context.check_hostname, context.verify_mode)
    assert context.check_hostname == (mode is ConnectionSSLMode.verify_full), mode
    if mode in (ConnectionSSLMode.verify_ca, ConnectionSSLMode.verify_full):
        assert context.verify_mode == ssl.CERT_REQUIRED
    else:
        assert context.verify_mode == ssl.CERT_NONE
'''
