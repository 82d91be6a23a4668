# rr.sh roots...  -> compact output
LL_ROOTS=$1 timeout ${T:-300} bash /tmp/run.sh 2>&1 | tail -n +8 | grep -v "^help\|^warn\|Checking\|Finished\|^CONTRACT"
