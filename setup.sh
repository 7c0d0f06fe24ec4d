#!/bin/bash
# Nothing is built: the encoding is made from /repo's source by every check. Is everything here?
set -e
/opt/veriftools/pyvenv/bin/python -c 'import z3, cvc5'
/opt/venv/bin/python -c 'import cryptojwt, oidcmsg'
echo ready
