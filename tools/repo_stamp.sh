#!/usr/bin/env bash
# Digest of everything in /repo the harnesses are built from.
cd /repo && find contracts/src contracts/Cargo.toml contracts-proc/src contracts-proc/Cargo.toml \
  lib/crypto/src lib/crypto/Cargo.toml Cargo.toml examples -type f -not -path '*/target/*' -not -path '*/node_modules/*' -print0 2>/dev/null \
  | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1
