LL_ROOTS=$1 LL_TRACE=${TR:-3} timeout ${T:-20} bash /tmp/run.sh 2>&1 | grep "loop" | sed 's/^ *//' | awk '{print $2,$3}' | sort | uniq -c | sort -rn | head -${H:-14}
