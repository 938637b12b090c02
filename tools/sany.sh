#!/bin/bash
cd /verif/specs && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $1.tla 2>&1 | grep -v -E "^(Parsing|Semantic|Linting)" | head -20
