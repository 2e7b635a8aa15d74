#!/bin/bash
exec timeout 280 node "$(dirname "$0")/demo.js"
