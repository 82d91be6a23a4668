cd /verif/tool && cargo +nightly build --release --offline 2>&1 | grep -E "^error|^  -->|warning: unused" -A6 | head -40
