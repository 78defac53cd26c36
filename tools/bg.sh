#!/bin/bash
# full vcheck in the background
(vcheck > /tmp/vcheck.log 2>&1; echo "rc=$?" >> /tmp/vcheck.log) &
