package c50

// files are the benchmarks of the repository, with 2 instead of 1000 or 5000 rows per INSERT,
// strings of 1 letter and no normal distribution.
var files = map[string]string{
	"aurora/_all.yaml": `# https://square.github.io/finch/benchmark/examples/#aurora

params:
  tables: 250
  rows: 25000
  instances: 4
  clients: 1000 # per instance
`,
	"aurora/setup.yaml": `# https://square.github.io/finch/benchmark/examples/#aurora

stage:
  name: setup
  trx:
    - file: trx/create-tables.sql
    - file: trx/insert-rows.sql
      data:
        k:
          generator: "int"
          params:
            max: 65536
        c:
          generator: "str-fill-az"
          params:
            len: 1 # not a typo
        pad:
          generator: "str-fill-az"
          params:
            len: 1 # not a typo
    - file: trx/analyze-tables.sql
`,
	"aurora/write-only.yaml": `# https://square.github.io/finch/benchmark/examples/#aurora

stage:
  name: "write-only"
  runtime: 600s
  # #########################################################################
  # The distributed compute is a key asspect of this benchmark: the original
  # 2015 Aurora benchmark was run on four r3.8xlarge EC2 instances, with each
  # running 1,000 clients.
  compute:
    instances: $params.instances
  workload:
    - clients: $params.clients
  # #########################################################################
  stats:
    report:
      stdout:
        percentiles: "95"
        each-instance: true
        combined: true
  trx:
    - file: trx/write-only.sql
      data:
        tableNo: # table number to query
          generator: "int"
          scope: trx # must be trx-scoped
          params:
            max: $params.tables
            dist: uniform
        id: # primary key
          generator: "int"
          params:
            max: $params.rows
            dist: uniform
        del_id: # primary key that's deleted and re-inserted
          generator: "int"
          scope: trx # must be trx-scoped; spans last 2 queries
          params:
            max: $params.rows
            dist: uniform
        k: # random int, non-unique secondary index
          generator: "int"
          params:
            max: 65536 # higher max = more keys
        c: # random string data (not indexed)
          generator: "str-fill-az"
          params:
            len: 1 # 119 1-byte chars + \0 byte = char(120)
        pad: # random string data (not indexed)
          generator: "str-fill-az"
          params:
            len: 1 # 59 1-byte chars + \0 byte = char(60)

`,
	"aurora/trx/analyze-tables.sql": `-- copies: $params.tables
ANALYZE TABLE sbtest/*!copy-number*/
`,
	"aurora/trx/create-tables.sql": `-- copies: $params.tables
CREATE TABLE sbtest/*!copy-number*/ (
  ` + "`" + `id` + "`" + ` int NOT NULL AUTO_INCREMENT,
  ` + "`" + `k` + "`" + ` int NOT NULL DEFAULT '0',
  ` + "`" + `c` + "`" + ` char(120) NOT NULL DEFAULT '',
  ` + "`" + `pad` + "`" + ` char(60) NOT NULL DEFAULT '',
  PRIMARY KEY (` + "`" + `id` + "`" + `),
  KEY ` + "`" + `k_1` + "`" + ` (` + "`" + `k` + "`" + `)
) ENGINE=InnoDB;
`,
	"aurora/trx/insert-rows.sql": `-- prepare
-- copies: $params.tables
-- rows: $params.rows
INSERT INTO sbtest/*!copy-number*/ VALUES /*!csv 2 (NULL, @k, @c, @pad)*/
`,
	"aurora/trx/write-only.sql": `
BEGIN

UPDATE sbtest@tableNo SET k=k+1 WHERE id=@id

UPDATE sbtest@tableNo SET c=@c WHERE id=@id

DELETE FROM sbtest@tableNo WHERE id=@del_id

INSERT INTO sbtest@tableNo (id, k, c, pad) VALUES (@del_id, @k, @c, @pad)

COMMIT
`,
	"intro/insert-rows.sql": `-- rows: 100,000
INSERT INTO finch.t1 (id, n, c) VALUES (@id, @n, @c)
`,
	"intro/read-only.sql": `SELECT n, c FROM finch.t1 WHERE id = @id
`,
	"intro/read-only.yaml": `# https://square.github.io/finch/benchmark/examples/#intro

stage:
  runtime: 10s
  workload:
    - clients: 4
  trx:
    - file: read-only.sql
      data:
        id:
          generator: "int"
`,
	"intro/row-lock.yaml": `# https://square.github.io/finch/benchmark/examples/#intro

stage:
  runtime: 20s
  workload:
    - clients: 4
  trx:
    - file: rw-trx.sql
      data:
        id:
          generator: "int"
          scope: trx
          params:
            max: 1,000
`,
	"intro/rw-trx.sql": `BEGIN

SELECT c FROM finch.t1 WHERE id = @id FOR UPDATE

UPDATE finch.t1 SET n = n + 1 WHERE id = @id

COMMIT
`,
	"intro/schema.sql": `CREATE TABLE t1 (
  id INT UNSIGNED NOT NULL PRIMARY KEY,
  n  INT NOT NULL,
  c  VARCHAR(100) NOT NULL,
  INDEX (n)
)
`,
	"intro/setup.yaml": `# https://square.github.io/finch/benchmark/examples/#intro

stage:
  trx:
    - file: schema.sql
    - file: insert-rows.sql
      data:
        id:
          generator: "auto-inc"
        n:
          generator: "int"
        c:
          generator: "str-fill-az"
`,
	"jcole-bug-97001/after.yaml": `# https://bugs.mysql.com/bug.php?id=97001
# https://blog.jcole.us/2019/09/30/reconsidering-access-paths-for-index-ordering-a-dangerous-optimization-and-a-fix/
# https://hackmysql.com/post/infamous-order-by-limit-query-optimizer-bug/

stage:
  trx:
    - file: shift-rows.sql # UPDATE t SET id=id+1000000 WHERE other_id = 555
    - file: get-1-row.sql
  workload:
    - group: shift
      trx: [shift-rows.sql]
      iter: 1
      disable-stats: true

    - group: after
      trx: [get-1-row.sql]
      iter: 2
`,
	"jcole-bug-97001/before.yaml": `# https://bugs.mysql.com/bug.php?id=97001
# https://blog.jcole.us/2019/09/30/reconsidering-access-paths-for-index-ordering-a-dangerous-optimization-and-a-fix/
# https://hackmysql.com/post/infamous-order-by-limit-query-optimizer-bug/

stage:
  trx:
    - file: get-1-row.sql
  workload:
    - iter: 1000
`,
	"jcole-bug-97001/get-1-row.sql": `SELECT non_covered_column FROM t WHERE other_id = 555 ORDER BY id ASC LIMIT 1
`,
	"jcole-bug-97001/insert-rows.sql": `-- prepare
INSERT INTO t (id, other_id, covered_column, non_covered_column) VALUES /*!csv 2 (@n(), @n % 1000, @n, @n)*/
`,
	"jcole-bug-97001/schema.sql": `CREATE TABLE t (
  id                  BIGINT        NOT NULL,
  other_id            BIGINT        NOT NULL,
  covered_column      VARCHAR(50)   NOT NULL,
  non_covered_column  VARCHAR(50)   NOT NULL,
  PRIMARY KEY (id),
  INDEX index_other_id_covered_column (other_id, covered_column)
)
`,
	"jcole-bug-97001/setup.yaml": `# https://bugs.mysql.com/bug.php?id=97001
# https://blog.jcole.us/2019/09/30/reconsidering-access-paths-for-index-ordering-a-dangerous-optimization-and-a-fix/
# https://hackmysql.com/post/infamous-order-by-limit-query-optimizer-bug/

stage:
  trx:
    - file: schema.sql
    - file: insert-rows.sql
      data:
        n:
          generator: auto-inc
          scope: client-group
  workload:
    - trx: [schema.sql]
    - trx: [insert-rows.sql] # 5k rows/insert 
      iter-clients: 200      # x 200 inserts = 1,000,000 rows
      clients: 4
`,
	"jcole-bug-97001/shift-rows.sql": `UPDATE t SET id=id+1000000 WHERE other_id = 555
`,
	"sysbench/_all.yaml": `# https://square.github.io/finch/benchmark/examples/#sysbench

# This base config, _all.yaml, applies to all stages in the same directory.
# It allows only the following 3 config sections:

# __ 01 _____________________________________________________________________
#
# MySQL usually applies to all stages because there's usually only 1 MySQL instance.
# But it could differ if, for example, a setup stage inserts rows on a writable
# source, and then benchmarks are run on a read-only replica.
#
# For consistency with other Finch example benchmarks, though, let's leave this
# commented out and use the default Finch MySQL username and password.
#mysql:
#  dsn: "root@tcp(127.0.0.1:3306)/sbtest"

# __ 02 _____________________________________________________________________
#
# Params usually apply to all stages to keep key settings in sync across stages
# and trx (SQL) files, like number of tables and rows. Each param is referenced
# like $params.rows or "${params.rows}". (YAML requires quotes around {}.)
params:
  rows: "10,000" # You can use human-readable numbers like this or "10k" 

# __ 03 _____________________________________________________________________
#
# Stats don't normally apply to all stages, but it's show here for demonstration.
# A stage can override this to turn off stats by setting stage.stats.disable=true,
# as shown in setup.yaml.
stats:
  freq: 5s
`,
	"sysbench/read-only.yaml": `# https://square.github.io/finch/benchmark/examples/#sysbench

stage:
  name: read-only
  runtime: 60s
  workload:
    - clients: 1
  trx:
    - file: trx/read-only.sql
      data:
        id:
          generator: "int"
          params:
            max: $params.rows
            dist: uniform
        id_100:
          generator: "int-range"
          params:
            range: 100
            max: $params.rows
`,
	"sysbench/setup.yaml": `# https://square.github.io/finch/benchmark/examples/#sysbench

stage:
  name: "setup"
  stats:
    disable: true
  trx:
    # Executed in order:
    - file: trx/schema.sql
    - file: trx/insert-rows.sql
      data:
        k:
          generator: "int"
          params:
            max: 65536
        c:
          generator: "str-fill-az"
          params:
            len: 1 # not a typo
        pad:
          generator: "str-fill-az"
          params:
            len: 1 # not a typo
    - file: trx/secondary-index.sql
`,
	"sysbench/write-only.yaml": `# https://square.github.io/finch/benchmark/examples/#sysbench

stage:
  name: write-only
  runtime: 60s
  workload:
    - clients: 1
  trx:
    - file: trx/write-only.sql
      data:
        id:
          generator: "int"
          params:
            max: $params.rows
            dist: uniform
        del_id:
          generator: "int"
          scope: trx
          params:
            max: $params.rows
            dist: uniform
        k:
          generator: "int"
          params:
            max: 65536
        c:
          generator: "str-fill-az"
          params:
            len: 1
        pad:
          generator: "str-fill-az"
          params:
            len: 1
`,
	"sysbench/trx/insert-rows.sql": `
-- prepare
-- rows: ${params.rows}
INSERT INTO sbtest1 VALUES /*!csv 2 (NULL, @k, @c, @pad) */
`,
	"sysbench/trx/read-only.sql": `
BEGIN

-- prepare
-- copies: 10
SELECT c FROM sbtest1 WHERE id=@id

-- prepare
SELECT c FROM sbtest1 WHERE id BETWEEN @id_100 AND @PREV

-- prepare
SELECT SUM(k) FROM sbtest1 WHERE id BETWEEN @id_100 AND @PREV

-- prepare
SELECT c FROM sbtest1 WHERE id BETWEEN @id_100 AND @PREV ORDER BY c

-- prepare
SELECT DISTINCT c FROM sbtest1 WHERE id BETWEEN @id_100 AND @PREV ORDER BY c

-- prepare
COMMIT
`,
	"sysbench/trx/schema.sql": `
CREATE TABLE sbtest1 (
  id int NOT NULL AUTO_INCREMENT,
  k int NOT NULL DEFAULT '0',
  c char(120) NOT NULL DEFAULT '',
  pad char(60) NOT NULL DEFAULT '',
  PRIMARY KEY (id)
  /* Secondary index added after loading rows */
) ENGINE=InnoDB
`,
	"sysbench/trx/secondary-index.sql": `
ALTER TABLE sbtest1 ADD INDEX ` + "`" + `k_1` + "`" + ` (` + "`" + `k` + "`" + `)

ANALYZE TABLE sbtest1
`,
	"sysbench/trx/write-only.sql": `
BEGIN

UPDATE sbtest1 SET k=k+1 WHERE id=@id

UPDATE sbtest1 SET c=@c WHERE id=@id

DELETE FROM sbtest1 WHERE id=@del_id

INSERT INTO sbtest1 (id, k, c, pad) VALUES (@del_id, @k, @c, @pad)

COMMIT
`,
	"xfer/_all.yaml": `# https://square.github.io/finch/benchmark/examples/#xfer

params:
  customers: 1,000,000 # + 3 balances per customer (4M rows total)
  active: 20           # % of customers between lower and upper
  lower: 500,000       
  upper: 1,000,000
  xfers-size: 1GiB  # about 2.3M rows
  clients: $sys.CPU_CORES # override on command line like "-p clients=2"

stats:
  freq: 5s
`,
	"xfer/setup.yaml": `# https://square.github.io/finch/benchmark/examples/#xfer

stage:
  name: setup
  stats:
    disable: true
  workload:
    - clients: 1                  #
      group: schema               # exec group "schema"
      trx: [schema.sql]           #
    - clients: 2                    #
      group: rows                   #
      trx: [insert-cust-bal.sql]    # exec group "rows"
    - clients: 2                    #
      group: rows                   #
      trx: [insert-xfers.sql]       #

  trx:
    - file: ./trx/schema.sql
    - file: ./trx/insert-cust-bal.sql
      data:
        c_token:
          generator: xid
          scope: trx
        b_token:
          generator: xid
          scope: value # required to generate 3 different balance tokens in same INSERT statement
        c_c1:
          generator: "str-fill-az"
          params:
            len: 1
        c_c2:
          generator: "str-fill-az"
          params:
            len: 1
        c_c3:
          generator: "str-fill-az"
          params:
            len: 1
        b_c1:
          generator: "str-fill-az"
          params:
            len: 1
        b_c2:
          generator: "str-fill-az"
          params:
            len: 1
    - file: ./trx/insert-xfers.sql
      data:
        x_token:
          generator: "xid"
        s_token:
          generator: "xid"
        r_token:
          generator: "xid"
        c1:
          generator: "str-fill-az"
          params:
            len: 1
        c2:
          generator: "str-fill-az"
          params:
            len: 1
        c3:
          generator: "str-fill-az"
          params:
            len: 1
`,
	"xfer/xfer.yaml": `# https://square.github.io/finch/benchmark/examples/#xfer

stage:
  name: xfer
  runtime: 60s
  workload:
    - clients: $params.clients
  trx:
    - file: ./trx/xfer.sql
      data:
        # Select a random sender
        sender_id:
          generator: "int-gaps"
          params:
            p: $params.active
            min: $params.lower
            max: $params.upper
        sender_token:
          generator: column
          params:
            quote-value: yes
        country:
          generator: column
          params:
            quote-value: yes
        sender_balance_token:
          generator: column
          params:
            quote-value: yes
        sender_balance_id:   # sender_balance_token -> customers.id
          generator: column

        # Select a random receiver
        receiver_id:
          generator: "int-gaps"
          params:
            p: $params.active
            min: $params.lower
            max: $params.upper
        receiver_token:
          generator: column
          params:
            quote-value: yes
        receiver_balance_token:
          generator: column
          params:
            quote-value: yes
        receiver_balance_id: # receiver_balance_token -> customers.id
          generator: column

        # Insert and update a transfer record between sender and receiver
        x_token:
          generator: xid
        xfer_id:
          generator: column
        c1:
          generator: "str-fill-az"
          params:
            len: 1
        c2:
          generator: "str-fill-az"
          params:
            len: 1
        c3:
          generator: "str-fill-az"
          params:
            len: 1

`,
	"xfer/trx/insert-cust-bal.sql": `
BEGIN

-- prepare
-- rows: $params.customers
INSERT INTO customers VALUES (NULL, @c_token, 'USA', @c_c1, @c_c2, @c_c3, 1, NOW(), NOW())

-- prepare
INSERT INTO balances VALUES
  (NULL, @b_token, @c_token, 1, 100, 'USD', @b_c1, @b_c2, 1, NOW(), NOW()),
  (NULL, @b_token, @c_token, 1, 200, 'USD', @b_c1, @b_c2, 1, NOW(), NOW()),
  (NULL, @b_token, @c_token, 1, 300, 'USD', @b_c1, @b_c2, 1, NOW(), NOW())

COMMIT
`,
	"xfer/trx/insert-xfers.sql": `
-- prepare
-- table-size: xfers $params.xfers-size
INSERT INTO xfers VALUES /*!csv 2 (NULL, @x_token, 0, 'USD', @s_token, @r_token, 1, @c1, @c2, @c3, NULL, NULL, NULL, 0, 0, NOW(), NOW()) */
`,
	"xfer/trx/schema.sql": `
CREATE TABLE customers (
  id		bigint         NOT NULL AUTO_INCREMENT,
  c_token	varbinary(255) NOT NULL,
  country	char(3)        NOT NULL,
  c1 		varchar(20)    DEFAULT NULL,
  c2 		varchar(50)    DEFAULT NULL,
  c3 		varchar(255)   DEFAULT NULL,
  b1 		tinyint        NOT NULL,
  created_at	timestamp      NOT NULL DEFAULT CURRENT_TIMESTAMP,
  updated_at	timestamp      NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP,
  PRIMARY KEY (id),
  UNIQUE KEY  (c_token),
  KEY         (country)
) ENGINE=InnoDB;

CREATE TABLE balances (
  id 		bigint         NOT NULL AUTO_INCREMENT,
  b_token	varbinary(255) NOT NULL,
  c_token 	varbinary(255) NOT NULL,
  version 	int            NOT NULL DEFAULT '0',
  cents 	bigint         NOT NULL,
  currency	varbinary(3)   NOT NULL,
  c1		varchar(50)    NOT NULL,
  c2		varchar(120)   DEFAULT NULL,
  b1 		tinyint        NOT NULL,
  created_at	timestamp      NOT NULL DEFAULT CURRENT_TIMESTAMP,
  updated_at	timestamp      NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP,
  PRIMARY KEY (id),
  UNIQUE KEY  (b_token),
  KEY         (c_token)
) ENGINE=InnoDB;

CREATE TABLE xfers (
  id		bigint       NOT NULL AUTO_INCREMENT,
  x_token	varchar(255) NOT NULL,
  cents 	bigint       NOT NULL,
  currency 	varbinary(3) NOT NULL,
  s_token 	varchar(255) NOT NULL,
  r_token 	varchar(255) NOT NULL,
  version       int unsigned NOT NULL DEFAULT '0',
  c1		varchar(50)           DEFAULT NULL,
  c2		varchar(255)          DEFAULT NULL,
  c3 		varchar(30)           DEFAULT NULL,
  t1 		timestamp        NULL DEFAULT NULL,
  t2 		timestamp        NULL DEFAULT NULL,
  t3 		timestamp        NULL DEFAULT NULL,
  b1 		tinyint      NOT NULL,
  b2 		tinyint      NOT NULL,
  created_at	timestamp    NOT NULL DEFAULT CURRENT_TIMESTAMP,
  updated_at	timestamp    NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP,
  PRIMARY KEY 	(id),
  UNIQUE KEY  	(x_token),
  KEY    	(s_token, t1),
  KEY  		(r_token, t1),
  KEY    	(created_at)
) ENGINE=InnoDB;
`,
	"xfer/trx/xfer.sql": `
BEGIN

-- save-columns: @sender_token, @country
SELECT c_token, country FROM customers WHERE id=@sender_id -- 2

-- save-columns: @sender_balance_token
SELECT b_token FROM balances WHERE c_token=@sender_token LIMIT 1 -- 3

-- save-columns: @receiver_token
SELECT c_token FROM customers WHERE id BETWEEN @receiver_id AND @receiver_id+100 AND country=@country LIMIT 1 -- 4

-- save-columns: @receiver_balance_token
SELECT b_token FROM balances WHERE c_token=@receiver_token LIMIT 1 -- 5

-- save-insert-id: @xfer_id
INSERT INTO xfers VALUES (NULL, @x_token, 100, 'USD', @sender_balance_token, @receiver_balance_token, 1, @c1, @c2, @c3, NOW(), NULL, NULL, 1, 0, NOW(), NOW()) -- 6

-- save-columns: @sender_balance_id, _
SELECT id, version FROM balances WHERE b_token=@sender_balance_token FOR UPDATE -- 7

UPDATE balances SET cents=cents-100, version=version+1 WHERE id=@sender_balance_id -- 8

-- save-columns: @receiver_balance_id, _
SELECT id, version FROM balances WHERE b_token=@receiver_balance_token FOR UPDATE -- 9

UPDATE balances SET cents=cents+100, version=version+1 WHERE id=@receiver_balance_id -- 10

UPDATE xfers SET t2=NOW(), c3='DONE' WHERE id=@xfer_id -- 11

COMMIT
`,
}
