#define RRR_BUILD_TIMESTAMP  20261119161431
