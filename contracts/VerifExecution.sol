pragma solidity ^0.8.8;

import "verif/VerifStateMachine.sol";

/// What else a state machine may do: several events, own errors, all kinds of failures, changing participants.
contract VerifExecution is VerifStateMachine {
    event Seen(
        bytes32 indexed channel,
        address who,
        uint fork,
        uint indexed height,
        uint time,
        bytes data
    );
    event Text(string indexed key, string value, uint[] list);
    error Refused(address who, uint n);

    /// everything a transaction carries
    function seen(string memory s, uint[] memory list) public {
        // an event that isn't in the interface
        assembly {
            log1(0, 0, 12345)
        }
        emit Seen(
            _tx.header.channelId,
            _tx.header.participant,
            _tx.header.forkCnt,
            _tx.header.transactionCnt,
            _tx.header.timestamp,
            _tx.body.encodedData
        );
        emit Text(s, s, list);
        emit Added(_tx.header.participant, list.length);
        state.number = _tx.header.timestamp;
    }

    function leave() public {
        (bool found, uint i) = _find(_tx.header.participant);
        require(found, "not in");
        _drop(i);
    }

    function enter(address a) public {
        state.participants.push(a);
        state.balances.push(1);
    }

    /// changes the state and emits, then fails in one of many ways
    function failing(uint how) public {
        state.number += 1;
        emit Added(_tx.header.participant, how);
        if (how == 0) revert Refused(_tx.header.participant, how);
        if (how == 1) revert();
        if (how == 2) assert(false);
        if (how == 3) assembly { invalid() }
        if (how == 4) assembly { revert(0, 2) }
        if (how == 5) assembly { mstore(0, not(0)) revert(0, 100) }
        if (how == 6) while (true) state.number += 1;
    }
}
