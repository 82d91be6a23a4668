bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAIL; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log
