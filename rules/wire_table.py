"""Released JSON and protobuf formats, transcribed from the released versions and checked against ICS-27, ibc-go and the
documentation in docs/.  Shapes as in engine/shape.py."""
WIRE = {'packet': {'write': ('struct',
                      {'data': ('data', ('array', ('prim', 'u8')), 'always'),
                       'memo': ('memo', ('opt', ('prim', 'string')), 'if-present'),
                       'type': ('type', ('prim', 'u32'), 'always')}),
            'read': ('struct',
                     {'data': ('data', ('array', ('prim', 'u8')), 'required'),
                      'memo': ('memo', ('opt', ('prim', 'string')), 'optional'),
                      'type': ('type', ('prim', 'u32'), 'required')},
                     'open')},
 'metadata': {'write': ('struct',
                        {'address': ('address', ('prim', 'string'), 'always'),
                         'controller_connection_id': ('controller_connection_id', ('prim', 'string'), 'always'),
                         'encoding': ('encoding', ('enum', {'proto3': ('Protobuf', ('unit',)), 'proto3json': ('Proto3Json', ('unit',))}), 'always'),
                         'host_connection_id': ('host_connection_id', ('prim', 'string'), 'always'),
                         'tx_type': ('tx_type', ('prim', 'string'), 'always'),
                         'version': ('version', ('prim', 'string'), 'always')}),
              'read': ('struct',
                       {'address': ('address', ('prim', 'string'), 'required'),
                        'controller_connection_id': ('controller_connection_id', ('prim', 'string'), 'required'),
                        'encoding': ('encoding', ('enum', {'proto3': ('Protobuf', ('unit',)), 'proto3json': ('Proto3Json', ('unit',))}), 'required'),
                        'host_connection_id': ('host_connection_id', ('prim', 'string'), 'required'),
                        'tx_type': ('tx_type', ('prim', 'string'), 'required'),
                        'version': ('version', ('prim', 'string'), 'required')},
                       'open')},
 'ack': {'write': ('enum', {'error': ('Error', ('prim', 'string')), 'result': ('Result', ('prim', 'base64'))}),
         'read': ('enum', {'error': ('Error', ('prim', 'string')), 'result': ('Result', ('prim', 'base64'))})},
 'callback': {'write': ('enum',
                        {'on_acknowledgement_packet_callback': ('OnAcknowledgementPacketCallback',
                                                                ('struct',
                                                                 {'ica_acknowledgement': ('ica_acknowledgement',
                                                                                          ('enum',
                                                                                           {'error': ('Error', ('prim', 'string')),
                                                                                            'result': ('Result', ('prim', 'base64'))}),
                                                                                          'always'),
                                                                  'original_packet': ('original_packet',
                                                                                      ('leaf', 'cosmwasm_std::ibc::IbcPacket'),
                                                                                      'always'),
                                                                  'query_result': ('query_result',
                                                                                   ('opt',
                                                                                    ('enum',
                                                                                     {'error': ('Error', ('prim', 'string')),
                                                                                      'success': ('Success',
                                                                                                  ('struct',
                                                                                                   {'height': ('height', ('prim', 'u64'), 'always'),
                                                                                                    'responses': ('responses',
                                                                                                                  ('array',
                                                                                                                   ('enum',
                                                                                                                    {'bank': ('Bank',
                                                                                                                              ('enum',
                                                                                                                               {'all_balances': ('AllBalances',
                                                                                                                                                 ('leaf',
                                                                                                                                                  'cosmwasm_std::query::bank::AllBalanceResponse')),
                                                                                                                                'all_denom_metadata': ('AllDenomMetadata',
                                                                                                                                                       ('leaf',
                                                                                                                                                        'cosmwasm_std::query::bank::AllDenomMetadataResponse')),
                                                                                                                                'balance': ('Balance',
                                                                                                                                            ('leaf',
                                                                                                                                             'cosmwasm_std::query::bank::BalanceResponse')),
                                                                                                                                'denom_metadata': ('DenomMetadata',
                                                                                                                                                   ('leaf',
                                                                                                                                                    'cosmwasm_std::query::bank::DenomMetadataResponse')),
                                                                                                                                'supply': ('Supply',
                                                                                                                                           ('leaf',
                                                                                                                                            'cosmwasm_std::query::bank::SupplyResponse'))})),
                                                                                                                     'staking': ('Staking',
                                                                                                                                 ('enum',
                                                                                                                                  {'all_delegations': ('AllDelegations',
                                                                                                                                                       ('struct',
                                                                                                                                                        {'delegations': ('delegations',
                                                                                                                                                                         ('array',
                                                                                                                                                                          ('struct',
                                                                                                                                                                           {'amount': ('amount',
                                                                                                                                                                                       ('leaf',
                                                                                                                                                                                        'cosmwasm_std::coin::Coin'),
                                                                                                                                                                                       'always'),
                                                                                                                                                                            'delegator': ('delegator',
                                                                                                                                                                                          ('prim',
                                                                                                                                                                                           'string'),
                                                                                                                                                                                          'always'),
                                                                                                                                                                            'validator': ('validator',
                                                                                                                                                                                          ('prim',
                                                                                                                                                                                           'string'),
                                                                                                                                                                                          'always')})),
                                                                                                                                                                         'always')})),
                                                                                                                                   'all_validators': ('AllValidators',
                                                                                                                                                      ('leaf',
                                                                                                                                                       'cosmwasm_std::query::staking::AllValidatorsResponse')),
                                                                                                                                   'bonded_denom': ('BondedDenom',
                                                                                                                                                    ('leaf',
                                                                                                                                                     'cosmwasm_std::query::staking::BondedDenomResponse')),
                                                                                                                                   'delegation': ('Delegation',
                                                                                                                                                  ('struct',
                                                                                                                                                   {'delegation': ('delegation',
                                                                                                                                                                   ('opt',
                                                                                                                                                                    ('struct',
                                                                                                                                                                     {'amount': ('amount',
                                                                                                                                                                                 ('leaf',
                                                                                                                                                                                  'cosmwasm_std::coin::Coin'),
                                                                                                                                                                                 'always'),
                                                                                                                                                                      'delegator': ('delegator',
                                                                                                                                                                                    ('prim',
                                                                                                                                                                                     'string'),
                                                                                                                                                                                    'always'),
                                                                                                                                                                      'validator': ('validator',
                                                                                                                                                                                    ('prim',
                                                                                                                                                                                     'string'),
                                                                                                                                                                                    'always')})),
                                                                                                                                                                   'always')})),
                                                                                                                                   'validator': ('Validator',
                                                                                                                                                 ('leaf',
                                                                                                                                                  'cosmwasm_std::query::staking::ValidatorResponse'))})),
                                                                                                                     'stargate': ('Stargate',
                                                                                                                                  ('struct',
                                                                                                                                   {'data': ('data',
                                                                                                                                             ('prim',
                                                                                                                                              'base64'),
                                                                                                                                             'always'),
                                                                                                                                    'path': ('path',
                                                                                                                                             ('prim',
                                                                                                                                              'string'),
                                                                                                                                             'always')})),
                                                                                                                     'wasm': ('Wasm',
                                                                                                                              ('enum',
                                                                                                                               {'code_info': ('CodeInfo',
                                                                                                                                              ('opt',
                                                                                                                                               ('leaf',
                                                                                                                                                'cosmwasm_std::query::wasm::CodeInfoResponse'))),
                                                                                                                                'contract_info': ('ContractInfo',
                                                                                                                                                  ('opt',
                                                                                                                                                   ('leaf',
                                                                                                                                                    'cosmwasm_std::query::wasm::ContractInfoResponse'))),
                                                                                                                                'raw_contract_state': ('RawContractState',
                                                                                                                                                       ('opt',
                                                                                                                                                        ('prim',
                                                                                                                                                         'base64'))),
                                                                                                                                'smart_contract_state': ('SmartContractState',
                                                                                                                                                         ('prim',
                                                                                                                                                          'base64'))}))})),
                                                                                                                  'always')}))})),
                                                                                   'if-present'),
                                                                  'relayer': ('relayer', ('prim', 'string'), 'always')})),
                         'on_channel_open_ack_callback': ('OnChannelOpenAckCallback',
                                                          ('struct',
                                                           {'channel': ('channel', ('leaf', 'cosmwasm_std::ibc::IbcChannel'), 'always'),
                                                            'ica_address': ('ica_address', ('prim', 'string'), 'always'),
                                                            'tx_encoding': ('tx_encoding',
                                                                            ('enum',
                                                                             {'proto3': ('Protobuf', ('unit',)),
                                                                              'proto3json': ('Proto3Json', ('unit',))}),
                                                                            'always')})),
                         'on_timeout_packet_callback': ('OnTimeoutPacketCallback',
                                                        ('struct',
                                                         {'original_packet': ('original_packet', ('leaf', 'cosmwasm_std::ibc::IbcPacket'), 'always'),
                                                          'relayer': ('relayer', ('prim', 'string'), 'always')}))}),
              'read': ('enum',
                       {'on_acknowledgement_packet_callback': ('OnAcknowledgementPacketCallback',
                                                               ('struct',
                                                                {'ica_acknowledgement': ('ica_acknowledgement',
                                                                                         ('enum',
                                                                                          {'error': ('Error', ('prim', 'string')),
                                                                                           'result': ('Result', ('prim', 'base64'))}),
                                                                                         'required'),
                                                                 'original_packet': ('original_packet',
                                                                                     ('leaf', 'cosmwasm_std::ibc::IbcPacket'),
                                                                                     'required'),
                                                                 'query_result': ('query_result',
                                                                                  ('opt',
                                                                                   ('enum',
                                                                                    {'error': ('Error', ('prim', 'string')),
                                                                                     'success': ('Success',
                                                                                                 ('struct',
                                                                                                  {'height': ('height', ('prim', 'u64'), 'required'),
                                                                                                   'responses': ('responses',
                                                                                                                 ('array',
                                                                                                                  ('enum',
                                                                                                                   {'bank': ('Bank',
                                                                                                                             ('enum',
                                                                                                                              {'all_balances': ('AllBalances',
                                                                                                                                                ('leaf',
                                                                                                                                                 'cosmwasm_std::query::bank::AllBalanceResponse')),
                                                                                                                               'all_denom_metadata': ('AllDenomMetadata',
                                                                                                                                                      ('leaf',
                                                                                                                                                       'cosmwasm_std::query::bank::AllDenomMetadataResponse')),
                                                                                                                               'balance': ('Balance',
                                                                                                                                           ('leaf',
                                                                                                                                            'cosmwasm_std::query::bank::BalanceResponse')),
                                                                                                                               'denom_metadata': ('DenomMetadata',
                                                                                                                                                  ('leaf',
                                                                                                                                                   'cosmwasm_std::query::bank::DenomMetadataResponse')),
                                                                                                                               'supply': ('Supply',
                                                                                                                                          ('leaf',
                                                                                                                                           'cosmwasm_std::query::bank::SupplyResponse'))})),
                                                                                                                    'staking': ('Staking',
                                                                                                                                ('enum',
                                                                                                                                 {'all_delegations': ('AllDelegations',
                                                                                                                                                      ('struct',
                                                                                                                                                       {'delegations': ('delegations',
                                                                                                                                                                        ('array',
                                                                                                                                                                         ('struct',
                                                                                                                                                                          {'amount': ('amount',
                                                                                                                                                                                      ('leaf',
                                                                                                                                                                                       'cosmwasm_std::coin::Coin'),
                                                                                                                                                                                      'required'),
                                                                                                                                                                           'delegator': ('delegator',
                                                                                                                                                                                         ('prim',
                                                                                                                                                                                          'string'),
                                                                                                                                                                                         'required'),
                                                                                                                                                                           'validator': ('validator',
                                                                                                                                                                                         ('prim',
                                                                                                                                                                                          'string'),
                                                                                                                                                                                         'required')},
                                                                                                                                                                          'open')),
                                                                                                                                                                        'required')},
                                                                                                                                                       'open')),
                                                                                                                                  'all_validators': ('AllValidators',
                                                                                                                                                     ('leaf',
                                                                                                                                                      'cosmwasm_std::query::staking::AllValidatorsResponse')),
                                                                                                                                  'bonded_denom': ('BondedDenom',
                                                                                                                                                   ('leaf',
                                                                                                                                                    'cosmwasm_std::query::staking::BondedDenomResponse')),
                                                                                                                                  'delegation': ('Delegation',
                                                                                                                                                 ('struct',
                                                                                                                                                  {'delegation': ('delegation',
                                                                                                                                                                  ('opt',
                                                                                                                                                                   ('struct',
                                                                                                                                                                    {'amount': ('amount',
                                                                                                                                                                                ('leaf',
                                                                                                                                                                                 'cosmwasm_std::coin::Coin'),
                                                                                                                                                                                'required'),
                                                                                                                                                                     'delegator': ('delegator',
                                                                                                                                                                                   ('prim',
                                                                                                                                                                                    'string'),
                                                                                                                                                                                   'required'),
                                                                                                                                                                     'validator': ('validator',
                                                                                                                                                                                   ('prim',
                                                                                                                                                                                    'string'),
                                                                                                                                                                                   'required')},
                                                                                                                                                                    'open')),
                                                                                                                                                                  'optional')},
                                                                                                                                                  'open')),
                                                                                                                                  'validator': ('Validator',
                                                                                                                                                ('leaf',
                                                                                                                                                 'cosmwasm_std::query::staking::ValidatorResponse'))})),
                                                                                                                    'stargate': ('Stargate',
                                                                                                                                 ('struct',
                                                                                                                                  {'data': ('data',
                                                                                                                                            ('prim',
                                                                                                                                             'base64'),
                                                                                                                                            'required'),
                                                                                                                                   'path': ('path',
                                                                                                                                            ('prim',
                                                                                                                                             'string'),
                                                                                                                                            'required')},
                                                                                                                                  'open')),
                                                                                                                    'wasm': ('Wasm',
                                                                                                                             ('enum',
                                                                                                                              {'code_info': ('CodeInfo',
                                                                                                                                             ('opt',
                                                                                                                                              ('leaf',
                                                                                                                                               'cosmwasm_std::query::wasm::CodeInfoResponse'))),
                                                                                                                               'contract_info': ('ContractInfo',
                                                                                                                                                 ('opt',
                                                                                                                                                  ('leaf',
                                                                                                                                                   'cosmwasm_std::query::wasm::ContractInfoResponse'))),
                                                                                                                               'raw_contract_state': ('RawContractState',
                                                                                                                                                      ('opt',
                                                                                                                                                       ('prim',
                                                                                                                                                        'base64'))),
                                                                                                                               'smart_contract_state': ('SmartContractState',
                                                                                                                                                        ('prim',
                                                                                                                                                         'base64'))}))})),
                                                                                                                 'required')},
                                                                                                  'open'))})),
                                                                                  'optional'),
                                                                 'relayer': ('relayer', ('prim', 'string'), 'required')},
                                                                'open')),
                        'on_channel_open_ack_callback': ('OnChannelOpenAckCallback',
                                                         ('struct',
                                                          {'channel': ('channel', ('leaf', 'cosmwasm_std::ibc::IbcChannel'), 'required'),
                                                           'ica_address': ('ica_address', ('prim', 'string'), 'required'),
                                                           'tx_encoding': ('tx_encoding',
                                                                           ('enum',
                                                                            {'proto3': ('Protobuf', ('unit',)),
                                                                             'proto3json': ('Proto3Json', ('unit',))}),
                                                                           'required')},
                                                          'open')),
                        'on_timeout_packet_callback': ('OnTimeoutPacketCallback',
                                                       ('struct',
                                                        {'original_packet': ('original_packet', ('leaf', 'cosmwasm_std::ibc::IbcPacket'), 'required'),
                                                         'relayer': ('relayer', ('prim', 'string'), 'required')},
                                                        'open'))})}}

STORED = {('item', 'state'): {'key': None,
                     'write': ('struct',
                               {'callback_address': ('callback_address', ('opt', ('prim', 'string')), 'always'),
                                'ica_info': ('ica_info',
                                             ('opt',
                                              ('struct',
                                               {'channel_id': ('channel_id', ('prim', 'string'), 'always'),
                                                'encoding': ('encoding',
                                                             ('enum', {'proto3': ('Protobuf', ('unit',)), 'proto3json': ('Proto3Json', ('unit',))}),
                                                             'always'),
                                                'ica_address': ('ica_address', ('prim', 'string'), 'always')})),
                                             'always')}),
                     'read': ('struct',
                              {'callback_address': ('callback_address', ('opt', ('prim', 'string')), 'optional'),
                               'ica_info': ('ica_info',
                                            ('opt',
                                             ('struct',
                                              {'channel_id': ('channel_id', ('prim', 'string'), 'required'),
                                               'encoding': ('encoding',
                                                            ('enum', {'proto3': ('Protobuf', ('unit',)), 'proto3json': ('Proto3Json', ('unit',))}),
                                                            'required'),
                                               'ica_address': ('ica_address', ('prim', 'string'), 'required')},
                                              'open')),
                                            'optional')},
                              'open')},
 ('item', 'ica_channel'): {'key': None,
                           'write': ('struct',
                                     {'channel': ('channel', ('leaf', 'cosmwasm_std::ibc::IbcChannel'), 'always'),
                                      'channel_status': ('channel_status',
                                                         ('enum',
                                                          {'STATE_CLOSED': ('Closed', ('unit',)),
                                                           'STATE_FLUSHCOMPLETE': ('FlushComplete', ('unit',)),
                                                           'STATE_FLUSHING': ('Flushing', ('unit',)),
                                                           'STATE_INIT': ('Init', ('unit',)),
                                                           'STATE_OPEN': ('Open', ('unit',)),
                                                           'STATE_TRYOPEN': ('TryOpen', ('unit',)),
                                                           'STATE_UNINITIALIZED_UNSPECIFIED': ('Uninitialized', ('unit',))}),
                                                         'always')}),
                           'read': ('struct',
                                    {'channel': ('channel', ('leaf', 'cosmwasm_std::ibc::IbcChannel'), 'required'),
                                     'channel_status': ('channel_status',
                                                        ('enum',
                                                         {'STATE_CLOSED': ('Closed', ('unit',)),
                                                          'STATE_FLUSHCOMPLETE': ('FlushComplete', ('unit',)),
                                                          'STATE_FLUSHING': ('Flushing', ('unit',)),
                                                          'STATE_INIT': ('Init', ('unit',)),
                                                          'STATE_OPEN': ('Open', ('unit',)),
                                                          'STATE_TRYOPEN': ('TryOpen', ('unit',)),
                                                          'STATE_UNINITIALIZED_UNSPECIFIED': ('Uninitialized', ('unit',))}),
                                                        'required')},
                                    'open')},
 ('item', 'channel_open_init_options'): {'key': None,
                                         'write': ('struct',
                                                   {'channel_ordering': ('channel_ordering',
                                                                         ('opt', ('leaf', 'cosmwasm_std::ibc::IbcOrder')),
                                                                         'always'),
                                                    'connection_id': ('connection_id', ('prim', 'string'), 'always'),
                                                    'counterparty_connection_id': ('counterparty_connection_id', ('prim', 'string'), 'always'),
                                                    'counterparty_port_id': ('counterparty_port_id', ('opt', ('prim', 'string')), 'always')}),
                                         'read': ('struct',
                                                  {'channel_ordering': ('channel_ordering',
                                                                        ('opt', ('leaf', 'cosmwasm_std::ibc::IbcOrder')),
                                                                        'optional'),
                                                   'connection_id': ('connection_id', ('prim', 'string'), 'required'),
                                                   'counterparty_connection_id': ('counterparty_connection_id', ('prim', 'string'), 'required'),
                                                   'counterparty_port_id': ('counterparty_port_id', ('opt', ('prim', 'string')), 'optional')},
                                                  'open')},
 ('item', 'allow_channel_open_init'): {'key': None, 'write': ('prim', 'bool'), 'read': ('prim', 'bool')},
 ('item', 'allow_channel_close_init'): {'key': None, 'write': ('prim', 'bool'), 'read': ('prim', 'bool')},
 ('item', 'pending_query'): {'key': None,
                             'write': ('array', ('tuple', (('prim', 'string'), ('prim', 'bool')))),
                             'read': ('array', ('tuple', (('prim', 'string'), ('prim', 'bool'))))},
 ('map', 'pending_queries'): {'key': '(&str,u64)',
                              'write': ('array', ('tuple', (('prim', 'string'), ('prim', 'bool')))),
                              'read': ('array', ('tuple', (('prim', 'string'), ('prim', 'bool'))))}}

API = {'InstantiateMsg': {'read': ('struct',
                             {'channel_open_init_options': ('channel_open_init_options',
                                                            ('struct',
                                                             {'channel_ordering': ('channel_ordering',
                                                                                   ('opt', ('leaf', 'cosmwasm_std::ibc::IbcOrder')),
                                                                                   'optional'),
                                                              'connection_id': ('connection_id', ('prim', 'string'), 'required'),
                                                              'counterparty_connection_id': ('counterparty_connection_id',
                                                                                             ('prim', 'string'),
                                                                                             'required'),
                                                              'counterparty_port_id': ('counterparty_port_id',
                                                                                       ('opt', ('prim', 'string')),
                                                                                       'optional')},
                                                             'open'),
                                                            'required'),
                              'owner': ('owner', ('opt', ('prim', 'string')), 'optional'),
                              'send_callbacks_to': ('send_callbacks_to', ('opt', ('prim', 'string')), 'optional')},
                             'open')},
 'ExecuteMsg': {'read': ('enum',
                         {'close_channel': ('CloseChannel', ('struct', {}, 'open')),
                          'create_channel': ('CreateChannel',
                                             ('struct',
                                              {'channel_open_init_options': ('channel_open_init_options',
                                                                             ('opt',
                                                                              ('struct',
                                                                               {'channel_ordering': ('channel_ordering',
                                                                                                     ('opt', ('leaf', 'cosmwasm_std::ibc::IbcOrder')),
                                                                                                     'optional'),
                                                                                'connection_id': ('connection_id', ('prim', 'string'), 'required'),
                                                                                'counterparty_connection_id': ('counterparty_connection_id',
                                                                                                               ('prim', 'string'),
                                                                                                               'required'),
                                                                                'counterparty_port_id': ('counterparty_port_id',
                                                                                                         ('opt', ('prim', 'string')),
                                                                                                         'optional')},
                                                                               'open')),
                                                                             'optional')},
                                              'open')),
                          'send_cosmos_msgs': ('SendCosmosMsgs',
                                               ('struct',
                                                {'messages': ('messages',
                                                              ('null', ('array',
                                                               ('leaf',
                                                                'cosmwasm_std::results::cosmos_msg::CosmosMsg<cosmwasm_std::results::empty::Empty>'))),
                                                              'required'),
                                                 'packet_memo': ('packet_memo', ('opt', ('prim', 'string')), 'optional'),
                                                 'queries': ('queries',
                                                             ('null', ('array',
                                                              ('leaf', 'cosmwasm_std::query::QueryRequest<cosmwasm_std::results::empty::Empty>'))),
                                                             'optional'),
                                                 'timeout_seconds': ('timeout_seconds', ('opt', ('prim', 'u64')), 'optional')},
                                                'open')),
                          'update_callback_address': ('UpdateCallbackAddress',
                                                      ('struct',
                                                       {'callback_address': ('callback_address', ('opt', ('prim', 'string')), 'optional')},
                                                       'open')),
                          'update_ownership': ('UpdateOwnership', ('leaf', 'cw_ownable::Action'))})},
 'QueryMsg': {'read': ('enum',
                       {'get_channel': ('GetChannel', ('struct', {}, 'open')),
                        'get_contract_state': ('GetContractState', ('struct', {}, 'open')),
                        'ownership': ('Ownership', ('struct', {}, 'open'))})},
 'MigrateMsg': {'read': ('struct', {}, 'open')},
 'ChannelState': {'write': ('struct',
                            {'channel': ('channel', ('leaf', 'cosmwasm_std::ibc::IbcChannel'), 'always'),
                             'channel_status': ('channel_status',
                                                ('enum',
                                                 {'STATE_CLOSED': ('Closed', ('unit',)),
                                                  'STATE_FLUSHCOMPLETE': ('FlushComplete', ('unit',)),
                                                  'STATE_FLUSHING': ('Flushing', ('unit',)),
                                                  'STATE_INIT': ('Init', ('unit',)),
                                                  'STATE_OPEN': ('Open', ('unit',)),
                                                  'STATE_TRYOPEN': ('TryOpen', ('unit',)),
                                                  'STATE_UNINITIALIZED_UNSPECIFIED': ('Uninitialized', ('unit',))}),
                                                'always')})},
 'State': {'write': ('struct',
                     {'callback_address': ('callback_address', ('opt', ('prim', 'string')), 'always'),
                      'ica_info': ('ica_info',
                                   ('opt',
                                    ('struct',
                                     {'channel_id': ('channel_id', ('prim', 'string'), 'always'),
                                      'encoding': ('encoding',
                                                   ('enum', {'proto3': ('Protobuf', ('unit',)), 'proto3json': ('Proto3Json', ('unit',))}),
                                                   'always'),
                                      'ica_address': ('ica_address', ('prim', 'string'), 'always')})),
                                   'always')})}}
