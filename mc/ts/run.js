'use strict';
require('./lib.js').main().catch((e) => {
    console.error(e.stack);
    process.exit(2);
});
